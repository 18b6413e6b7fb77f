/* What the functions of wam2ma.c are to do. */
#include "../EnginePl/gp_config.h"

#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <locale.h>

#define ONLY_TAG_PART
#include "../EnginePl/wam_archi.h"
#include "../EnginePl/pl_params.h"
#include "../EnginePl/pred.h"

#include "wam_parser.h"
#include "wam_protos.h"
#include "../TopComp/copying.h"
#include "../TopComp/mangling.h"

#define MAP_KEY_TYPE char *
#define MAP_KEY_CMP(x,y) strcmp(x, y)
#define MAP_VALUE_TYPE int
#define MAP_PUT_ENTRY(map,entry) ((entry)->value = map_counter_add(map) - 1)
#include "../Tools/map_rbtree.h"
#include "macros_ref.h"

#define FAST

#define USE_TAGGED_CALLS_FOR_WAM_FCTS

#define SWT_INT_DICHOTOMY

#define DEFAULT_OUTPUT_SUFFIX ".ma"

#define MAX_PRED_NAME_LENGTH 2048
#define MAX_MANGLE_LENGTH MAX_PRED_NAME_LENGTH * 2 + 2 + 16
#define MAX_LABEL_LENGTH 32

#define ANY_SIZE 1

#define FOREIGN_TYPE_INTEGER 0
#define FOREIGN_TYPE_POSITIVE 1
#define FOREIGN_TYPE_FLOAT 2
#define FOREIGN_TYPE_NUMBER 3
#define FOREIGN_TYPE_ATOM 4
#define FOREIGN_TYPE_BOOLEAN 5
#define FOREIGN_TYPE_CHAR 6
#define FOREIGN_TYPE_IN_CHAR 7
#define FOREIGN_TYPE_CODE 8
#define FOREIGN_TYPE_IN_CODE 9
#define FOREIGN_TYPE_BYTE 10
#define FOREIGN_TYPE_IN_BYTE 11
#define FOREIGN_TYPE_STRING 12
#define FOREIGN_TYPE_CHARS 13
#define FOREIGN_TYPE_CODES 14
#define FOREIGN_TYPE_TERM 15

#define FOREIGN_TBL_SIZE 16

#define FOREIGN_MODE_IN 0
#define FOREIGN_MODE_OUT 1
#define FOREIGN_MODE_IN_OUT 2

typedef struct swt_elt
{
  struct map_entry *atom;
  PlLong n;
  int label;
}
SwtElt;

typedef struct swt_tbl *PSwtTbl;

typedef struct swt_tbl
{
  enum
  {
    TBL_ATM,

    TBL_STC
  }
  type;
  int tbl_no;
  PSwtTbl next;
  int nb_elem;
  SwtElt elem[ANY_SIZE];
}
SwtTbl;

typedef struct predinf *PredP;

typedef struct predinf
{
  struct map_entry *module;
  struct map_entry *functor;
  int arity;
  char *mangle;
  int line_no;
  int prop;
  struct map_entry *pl_file;
  int pl_line;
  SwtTbl *swt_tbl[3];
  PredP next;
}
Pred;

typedef struct directinf *DirectP;

typedef struct directinf
{
  struct map_entry *pl_file;
  int pl_line;
  Bool system;
  DirectP next;
}
Direct;

extern char *file_name_in;
extern char *file_name_out;
extern Bool comment;

extern FILE *file_out;

struct map_rbt map_atom = MAP_INIT;
struct map_rbt map_tagged_atom = MAP_INIT;
struct map_rbt map_tagged_f_n = MAP_INIT;

struct map_entry *cur_pl_file;

extern char buff_mangle[MAX_MANGLE_LENGTH];

extern Pred dummy_pred_start;
extern Pred *pred_end;

extern Direct dummy_direct_start;
extern Direct *direct_end;

extern int nb_swt_tbl;

extern Pred *cur_pred;
extern int cur_pred_no;
extern int cur_arity;
extern int cur_sub_label;

extern int cur_direct_no;

extern char *foreign_tbl[FOREIGN_TBL_SIZE];

SwtTbl *Create_Switch_Table(int type, int nb_elem);

void Init_Foreign_Table(void);

void Emit_Unit_Initializer(void);

void Emit_Exec_Directives(void);

void Emit_One_Atom(struct map_entry *entry);

void Emit_One_Atom_Tagged(struct map_entry *entry);

int Add_F_N_Tagged(char *atom, int n);

void Emit_One_F_N_Tagged(struct map_entry *entry);

void Label_Printf(char *label, ...) ATTR_PRINTF(1);

void Inst_Printf(char *op, char *operands, ...) ATTR_PRINTF(2);

void Parse_Arguments(int argc, char *argv[]);

void Display_Help(void);

#define Check_Arg(i,str) (strncmp(argv[i], str, strlen(argv[i])) == 0)

#define DEF_STR(str) char *str

#define LOAD_STR(str) Get_Arg(top, char *, str)

#define DEF_ATOM(atom) struct map_entry *atom; char *str_ ##atom

#define LOAD_ATOM_T(atom,t) Get_Arg(top, char *, str_ ##atom); atom = map_put(&t, str_ ##atom, NULL)

#define LOAD_ATOM_0(atom) LOAD_ATOM_T(atom, map_atom)
#define LOAD_ATOM_1(atom) LOAD_ATOM_T(atom, map_tagged_atom)

#define LOAD_ATOM(atom) LOAD_ATOM_1(atom)

#define DEF_INTEGER(n) PlLong n

#define LOAD_INTEGER(n) Get_Arg(top, PlLong, n)

#define DEF_C_INT(n) int n

#define LOAD_C_INT(n) Get_Arg(top, int, n)

#define DEF_FLOAT(n) double n

#define LOAD_FLOAT(n) Get_Arg(top, double, n)

#define DEF_X_Y(xy) int xy; char c

#define LOAD_X_Y(xy) Get_Arg(top, int, xy); if (xy < 5000) c = 'X'; else xy -= 5000, c = 'Y'

#define DEF_F_N_0(atom,n) DEF_ATOM(atom); DEF_C_INT(n)
#define DEF_F_N_1(atom,n) DEF_STR(str_ ##atom); DEF_C_INT(n); int f_n_no

#define DEF_F_N(atom,n) DEF_F_N_1(atom, n)

#define LOAD_F_N_0(atom,n) LOAD_ATOM_0(atom); LOAD_C_INT(n)
#define LOAD_F_N_1(atom,n) LOAD_STR(str_ ##atom); LOAD_C_INT(n); f_n_no = Add_F_N_Tagged(str_ ##atom, (int) n)

#define LOAD_F_N(atom,n) LOAD_F_N_1(atom, n)

#define DEF_MP_N(m,p,n) DEF_STR(m); DEF_STR(p); DEF_C_INT(n)

#define LOAD_MP_N(m,p,n) LOAD_STR(m); LOAD_STR(p); LOAD_C_INT(n)

#define DEF_LABEL(l) char l[MAX_LABEL_LENGTH]; int val_ ##l

#define LOAD_LABEL(l) Get_Arg(top, int, val_ ##l); if (val_ ##l==-1) strcpy(l, "0"); else sprintf(l, FORMAT_LABEL(val_ ##l))

#define Args0 ArgVal *top = arg

#define Args1(a1) ArgVal *top = arg; DEF_ ##a1; LOAD_ ##a1

#define Args2(a1,a2) ArgVal *top = arg; DEF_ ##a1; DEF_ ##a2; LOAD_ ##a1; LOAD_ ##a2

#define Args3(a1,a2,a3) ArgVal *top = arg; DEF_ ##a1; DEF_ ##a2; DEF_ ##a3; LOAD_ ##a1; LOAD_ ##a2; LOAD_ ##a3

#define Args4(a1,a2,a3,a4) ArgVal *top = arg; DEF_ ##a1; DEF_ ##a2; DEF_ ##a3; DEF_ ##a4; LOAD_ ##a1; LOAD_ ##a2; LOAD_ ##a3; LOAD_ ##a4

#define Args5(a1,a2,a3,a4,a5) ArgVal *top = arg; DEF_ ##a1; DEF_ ##a2; DEF_ ##a3; DEF_ ##a4; DEF_ ##a5; LOAD_ ##a1; LOAD_ ##a2; LOAD_ ##a3; LOAD_ ##a4; LOAD_ ##a5

#define Args6(a1,a2,a3,a4,a5,a6) ArgVal *top = arg; DEF_ ##a1; DEF_ ##a2; DEF_ ##a3; DEF_ ##a4; DEF_ ##a5; DEF_ ##a6; LOAD_ ##a1; LOAD_ ##a2; LOAD_ ##a3; LOAD_ ##a4; LOAD_ ##a5; LOAD_ ##a6

#define FORMAT_LABEL(l) ".pred%d_%d", cur_pred_no, (l)

#define FORMAT_SUB_LABEL(sl) ".pred%d_sub_%d", cur_pred_no, (sl)

#define CREATE_CHOICE_INST(l) if (cur_arity >= 1 && cur_arity <= 4) Inst_Printf("call_c", FAST "Pl_Create_Choice_Point%d(&%s)", cur_arity, l); else Inst_Printf("call_c", FAST "Pl_Create_Choice_Point(&%s,%d)", l, cur_arity)

#define UPDATE_CHOICE_INST(l) if (cur_arity >= 1 && cur_arity <= 4) Inst_Printf("call_c", FAST "Pl_Update_Choice_Point%d(&%s)", cur_arity, l); else Inst_Printf("call_c", FAST "Pl_Update_Choice_Point(&%s,%d)", l, cur_arity)

#define DELETE_CHOICE_INST if (cur_arity >= 1 && cur_arity <= 4) Inst_Printf("call_c", FAST "Pl_Delete_Choice_Point%d()", cur_arity); else Inst_Printf("call_c", FAST "Pl_Delete_Choice_Point(%d)", cur_arity)
int main(int argc, char *argv[]);
void Source_Line(int line_no, char *cmt);
void F_file_name(ArgVal arg[]);
void F_predicate(ArgVal arg[]);
void F_directive(ArgVal arg[]);
void F_ensure_linked(ArgVal arg[]);
void F_get_variable(ArgVal arg[]);
void F_get_value(ArgVal arg[]);
void F_get_atom(ArgVal arg[]);
void F_get_integer(ArgVal arg[]);
void F_get_float(ArgVal arg[]);
void F_get_nil(ArgVal arg[]);
void F_get_list(ArgVal arg[]);
void F_get_structure(ArgVal arg[]);
void F_put_variable(ArgVal arg[]);
void F_put_void(ArgVal arg[]);
void F_put_value(ArgVal arg[]);
void F_put_unsafe_value(ArgVal arg[]);
void F_put_atom(ArgVal arg[]);
void F_put_integer(ArgVal arg[]);
void F_put_float(ArgVal arg[]);
void F_put_nil(ArgVal arg[]);
void F_put_list(ArgVal arg[]);
void F_put_structure(ArgVal arg[]);
void F_put_meta_term(ArgVal arg[]);
void F_math_load_value(ArgVal arg[]);
void F_math_fast_load_value(ArgVal arg[]);
void F_unify_variable(ArgVal arg[]);
void F_unify_void(ArgVal arg[]);
void F_unify_value(ArgVal arg[]);
void F_unify_local_value(ArgVal arg[]);
void F_unify_atom(ArgVal arg[]);
void F_unify_integer(ArgVal arg[]);
void F_unify_nil(ArgVal arg[]);
void F_unify_list(ArgVal arg[]);
void F_unify_structure(ArgVal arg[]);
void F_allocate(ArgVal arg[]);
void F_deallocate(ArgVal arg[]);
void F_call(ArgVal arg[]);
void F_execute(ArgVal arg[]);
void F_proceed(ArgVal arg[]);
void F_fail(ArgVal arg[]);
void F_label(ArgVal arg[]);
void F_switch_on_term(ArgVal arg[]);
SwtTbl * Create_Switch_Table(int type, int nb_elem);
void F_switch_on_atom(ArgVal arg[]);
void F_switch_on_integer(ArgVal arg[]);
void F_switch_on_structure(ArgVal arg[]);
void F_try_me_else(ArgVal arg[]);
void F_retry_me_else(ArgVal arg[]);
void F_trust_me_else_fail(ArgVal arg[]);
void F_try(ArgVal arg[]);
void F_retry(ArgVal arg[]);
void F_trust(ArgVal arg[]);
void F_pragma_arity(ArgVal arg[]);
void F_get_current_choice(ArgVal arg[]);
void F_cut(ArgVal arg[]);
void F_soft_cut(ArgVal arg[]);
void F_call_c(ArgVal arg[]);
void Init_Foreign_Table(void);
void Emit_Unit_Initializer(void);
void Emit_Exec_Directives(void);
void Emit_One_Atom(struct map_entry *entry);
void Emit_One_Atom_Tagged(struct map_entry *entry);
int Add_F_N_Tagged(char *atom, int n);
void Emit_One_F_N_Tagged(struct map_entry *entry);
void Label_Printf(char *label, ...);
void Inst_Printf(char *op, char *operands, ...);
void Parse_Arguments(int argc, char *argv[]);
Pred *ref_pred_end = &dummy_pred_start;
Direct *ref_direct_end = &dummy_direct_start;

int ref_main(int argc, char *argv[])
{
  setlocale(LC_ALL, "");
  setlocale(LC_NUMERIC, "C");

  Parse_Arguments(argc, argv);

  if (file_name_out == NULL)
    file_out = stdout;
  else if ((file_out = fopen(file_name_out, "wt")) == NULL)
    {
      fprintf(stderr, "cannot open output file %s\n", file_name_out);
      exit(1);
    }

  Init_Foreign_Table();
  dummy_pred_start.next = NULL;
  dummy_direct_start.next = NULL;

  if (!Parse_Wam_File(file_name_in, comment))
    {
      fprintf(stderr, "Translation aborted\n");
      exit(1);
    }

  Emit_Unit_Initializer();
  Emit_Exec_Directives();

  if (file_out != stdout)
    fclose(file_out);

  exit(0);
}

void ref_Source_Line(int line_no, char *cmt)
{
  Label_Printf("\t; %6d: %s", line_no, cmt);
}

void ref_F_file_name(ArgVal arg[])
{
  Args1(STR(pl_file));

  cur_pl_file = map_put(&map_atom, pl_file, NULL);
}

void ref_F_predicate(ArgVal arg[])
{
  struct map_entry *atom_module = NULL;
  struct map_entry *atom_functor;
  Bool module_user_system = FALSE;
  int prop = 0;
  Bool local_symbol = FALSE;
  Args6(MP_N(module, functor, arity), C_INT(pl_line),
	STR(static_dynamic), STR(public_private), STR(mono_multi), STR(built_in_local_global));

  if (cur_pl_file == NULL)
    Syntax_Error("file_name declaration missing");

  atom_functor = map_put(&map_atom, functor, NULL);

  cur_arity = (int) arity;
  cur_sub_label = 0;

  if (strcmp(static_dynamic, "dynamic") == 0)
    prop = MASK_PRED_DYNAMIC;
  else if (strcmp(static_dynamic, "static") == 0)
    prop = MASK_PRED_NATIVE_CODE;
  else
    Syntax_Error("static or dynamic expected");

  if (strcmp(public_private, "public") == 0)
    prop |= MASK_PRED_PUBLIC;
  else if (strcmp(public_private, "private") != 0)
    Syntax_Error("public or private expected");

  if (strcmp(mono_multi, "monofile") == 0)
    ;
  else if (strcmp(mono_multi, "multifile") == 0)
    {
      prop |= MASK_PRED_MULTIFILE;
      prop &= ~MASK_PRED_NATIVE_CODE;
    }
  else
    {
      Syntax_Error("multifile or multifile expected");
    }

  if (strcmp(built_in_local_global, "built_in") == 0)
    prop |= MASK_PRED_BUILTIN;
  else if (strcmp(built_in_local_global, "built_in_fd") == 0)
    prop |= MASK_PRED_BUILTIN_FD;
  else if (strcmp(built_in_local_global, "local") == 0)
    local_symbol = TRUE;
  else if (strcmp(built_in_local_global, "user") != 0 &&
	   strcmp(built_in_local_global, "global") != 0)
    Syntax_Error("built_in, built_in_fd, local or global (or user) expected");

  if (!local_symbol)
    prop |= MASK_PRED_EXPORTED;

  cur_pred_no++;

  cur_pred = (Pred *) malloc(sizeof(Pred));
  if (cur_pred == NULL)
    {
      fprintf(stderr, "Cannot allocate memory for predicate #%d (%s/%d)\n",
	      cur_pred_no, functor, arity);
      exit(1);
    }

  if (module == NULL || *module == '\0')
    {
      if (prop & MASK_PRED_BUILTIN || prop & MASK_PRED_BUILTIN_FD)
	module = "system";
      else
	module = "user";
    }
  atom_module = map_put(&map_atom, module, NULL);
  if (strcmp(module, "user") == 0 || strcmp(module, "system") == 0)
    module_user_system = TRUE;

  cur_pred->module = atom_module;
  cur_pred->functor = atom_functor;
  cur_pred->arity = (int) arity;
  cur_pred->pl_file = cur_pl_file;
  cur_pred->pl_line = (int) pl_line;
  cur_pred->prop = prop;
  cur_pred->swt_tbl[0] = NULL;
  cur_pred->swt_tbl[1] = NULL;
  cur_pred->swt_tbl[2] = NULL;
  cur_pred->next = NULL;

  pred_end->next = cur_pred;
  pred_end = cur_pred;

  if (comment)
    {
      Label_Printf("\n\n; *** Predicate: %s:%s/%d (%s:%d)",
		   module, functor, arity, cur_pl_file->key, pl_line);
    }

  Mangle((local_symbol || module_user_system) ? NULL : module, functor, (int) arity, buff_mangle + 1);
  *buff_mangle = '&';
  cur_pred->mangle = strdup(buff_mangle);

  Label_Printf("\n\npl_code %s %s", (local_symbol) ? "local" : "global", buff_mangle + 1);
}

void ref_F_directive(ArgVal arg[])
{
  Direct *p;
  Bool system = FALSE;
  Args2(C_INT(pl_line), STR(user_system));

  if (cur_pl_file == NULL)
    Syntax_Error("file_name declaration missing");

  if (strcmp(user_system, "system") == 0)
    system = TRUE;
  else if (strcmp(user_system, "user") == 0)
    system = FALSE;
  else
    Syntax_Error("user or system expected");

  cur_direct_no++;
  p = (Direct *) malloc(sizeof(Direct));
  if (p == NULL)
    {
      fprintf(stderr, "Cannot allocate memory for directive #%d\n", cur_direct_no);
      exit(1);
    }

  p->pl_file = cur_pl_file;
  p->pl_line = (int) pl_line;
  p->system = system;
  p->next = NULL;

  direct_end->next = p;
  direct_end = p;

  if (comment)
    Label_Printf("\n\n; *** %s Directive (%s:%d)", (system) ? "System" : "User", cur_pl_file->key, pl_line);

  Label_Printf("\n\npl_code local directive_%d", cur_direct_no);
}

void ref_F_ensure_linked(ArgVal arg[])
{
  DEF_MP_N(m, p, n);
  Args1(C_INT(nb_elem));

  Label_Printf("\n\npl_code local ensure_linked");
  while (nb_elem--)
    {
      LOAD_MP_N(m, p, n);
      Mangle(m, p, (int) n, buff_mangle);
      Inst_Printf("pl_jump", "%s", buff_mangle);
    }
}

void ref_F_get_variable(ArgVal arg[])
{
  Args2(X_Y(xy), C_INT(a));
  Inst_Printf("move", "X(%d),%c(%d)", a, c, xy);
}

void ref_F_get_value(ArgVal arg[])
{
  Args2(X_Y(xy), C_INT(a));
  Inst_Printf("call_c", FAST "Pl_Unify(%c(%d),X(%d))", c, xy, a);
  Inst_Printf("fail_ret", "");
}

void ref_F_get_atom(ArgVal arg[])
{
  Args2(ATOM(atom), C_INT(a));

  Inst_Printf("call_c", FAST "Pl_Get_Atom_Tagged(ta(%d),X(%d))", atom->value, a);

  Inst_Printf("fail_ret", "");
}

void ref_F_get_integer(ArgVal arg[])
{
  Args2(INTEGER(n), C_INT(a));

  Inst_Printf("call_c", FAST "Pl_Get_Integer_Tagged(%" PL_FMT_d ",X(%d))", Tag_INT(n), a);

  Inst_Printf("fail_ret", "");
}

void ref_F_get_float(ArgVal arg[])
{
  Args2(FLOAT(n), C_INT(a));
  Inst_Printf("call_c", FAST "Pl_Get_Float(%1.20e,X(%d))", n, a);
  Inst_Printf("fail_ret", "");
}

void ref_F_get_nil(ArgVal arg[])
{
  Args1(C_INT(a));
  Inst_Printf("call_c", FAST "Pl_Get_Nil(X(%d))", a);
  Inst_Printf("fail_ret", "");
}

void ref_F_get_list(ArgVal arg[])
{
  Args1(C_INT(a));
  Inst_Printf("call_c", FAST "Pl_Get_List(X(%d))", a);
  Inst_Printf("fail_ret", "");
}

void ref_F_get_structure(ArgVal arg[])
{
  Args2(F_N(atom, n), C_INT(a));

  Inst_Printf("call_c", FAST "Pl_Get_Structure_Tagged(fn(%d),X(%d))", f_n_no, a);

  Inst_Printf("fail_ret", "");
}

void ref_F_put_variable(ArgVal arg[])
{
  Args2(X_Y(xy), C_INT(a));
  if (c == 'X')
    {
      Inst_Printf("call_c", FAST "Pl_Put_X_Variable()");
      Inst_Printf("move_ret", "X(%d)", a);
      Inst_Printf("move", "X(%d),X(%d)", a, xy);
    }
  else
    {
      Inst_Printf("call_c", FAST "Pl_Put_Y_Variable(&Y(%d))", xy);
      Inst_Printf("move_ret", "X(%d)", a);
    }
}

void ref_F_put_void(ArgVal arg[])
{
  Args1(C_INT(a));
  Inst_Printf("call_c", FAST "Pl_Put_X_Variable()");
  Inst_Printf("move_ret", "X(%d)", a);
}

void ref_F_put_value(ArgVal arg[])
{
  Args2(X_Y(xy), C_INT(a));
  Inst_Printf("move", "%c(%d),X(%d)", c, xy, a);
}

void ref_F_put_unsafe_value(ArgVal arg[])
{
  Args2(X_Y(xy), C_INT(a));
  Inst_Printf("call_c", FAST "Pl_Put_Unsafe_Value(%c(%d))", c, xy);
  Inst_Printf("move_ret", "X(%d)", a);
}

void ref_F_put_atom(ArgVal arg[])
{
  Args2(ATOM(atom), C_INT(a));

  Inst_Printf("call_c", FAST "Pl_Put_Atom_Tagged(ta(%d))", atom->value);

  Inst_Printf("move_ret", "X(%d)", a);
}

void ref_F_put_integer(ArgVal arg[])
{
  Args2(INTEGER(n), C_INT(a));

  Inst_Printf("call_c", FAST "Pl_Put_Integer_Tagged(%" PL_FMT_d ")", Tag_INT(n));

  Inst_Printf("move_ret", "X(%d)", a);
}

void ref_F_put_float(ArgVal arg[])
{
  Args2(FLOAT(n), C_INT(a));
  Inst_Printf("call_c", FAST "Pl_Put_Float(%1.20e)", n);
  Inst_Printf("move_ret", "X(%d)", a);
}

void ref_F_put_nil(ArgVal arg[])
{
  Args1(C_INT(a));
  Inst_Printf("call_c", FAST "Pl_Put_Nil()");
  Inst_Printf("move_ret", "X(%d)", a);
}

void ref_F_put_list(ArgVal arg[])
{
  Args1(C_INT(a));
  Inst_Printf("call_c", FAST "Pl_Put_List()");
  Inst_Printf("move_ret", "X(%d)", a);
}

void ref_F_put_structure(ArgVal arg[])
{
  Args2(F_N(atom, n), C_INT(a));

  Inst_Printf("call_c", FAST "Pl_Put_Structure_Tagged(fn(%d))", f_n_no);

  Inst_Printf("move_ret", "X(%d)", a);
}

void ref_F_put_meta_term(ArgVal arg[])
{
  Args3(ATOM(module), C_INT(x), C_INT(a));

  Inst_Printf("call_c", FAST "Pl_Put_Meta_Term_Tagged(ta(%d), X(%d))", module->value, x);

  Inst_Printf("move_ret", "X(%d)", a);
}

void ref_F_math_load_value(ArgVal arg[])
{
  Args2(X_Y(xy), C_INT(a));
  Inst_Printf("call_c", FAST "Pl_Math_Load_Value(%c(%d),&X(%d))", c, xy, a);
}

void ref_F_math_fast_load_value(ArgVal arg[])
{
  Args2(X_Y(xy), C_INT(a));
  Inst_Printf("call_c", FAST "Pl_Math_Fast_Load_Value(%c(%d),&X(%d))", c, xy, a);
}

void ref_F_unify_variable(ArgVal arg[])
{
  Args1(X_Y(xy));
  Inst_Printf("call_c", FAST "Pl_Unify_Variable()");
  Inst_Printf("move_ret", "%c(%d)", c, xy);
}

void ref_F_unify_void(ArgVal arg[])
{
  Args1(C_INT(n));
  Inst_Printf("call_c", FAST "Pl_Unify_Void(%d)", n);
}

void ref_F_unify_value(ArgVal arg[])
{
  Args1(X_Y(xy));
  Inst_Printf("call_c", FAST "Pl_Unify_Value(%c(%d))", c, xy);
  Inst_Printf("fail_ret", "");
}

void ref_F_unify_local_value(ArgVal arg[])
{
  Args1(X_Y(xy));
  Inst_Printf("call_c", FAST "Pl_Unify_Local_Value(%c(%d))", c, xy);
  Inst_Printf("fail_ret", "");
}

void ref_F_unify_atom(ArgVal arg[])
{
  Args1(ATOM(atom));

  Inst_Printf("call_c", FAST "Pl_Unify_Atom_Tagged(ta(%d))", atom->value);

  Inst_Printf("fail_ret", "");
}

void ref_F_unify_integer(ArgVal arg[])
{
  Args1(INTEGER(n));

  Inst_Printf("call_c", FAST "Pl_Unify_Integer_Tagged(%" PL_FMT_d ")", Tag_INT(n));

  Inst_Printf("fail_ret", "");
}

void ref_F_unify_nil(ArgVal arg[])
{
  Inst_Printf("call_c", FAST "Pl_Unify_Nil()");
  Inst_Printf("fail_ret", "");
}

void ref_F_unify_list(ArgVal arg[])
{
  Inst_Printf("call_c", FAST "Pl_Unify_List()");
  Inst_Printf("fail_ret", "");
}

void ref_F_unify_structure(ArgVal arg[])
{
  Args1(F_N(atom, n));

  Inst_Printf("call_c", FAST "Pl_Unify_Structure_Tagged(fn(%d))", f_n_no);

  Inst_Printf("fail_ret", "");
}

void ref_F_allocate(ArgVal arg[])
{
  Args1(C_INT(n));
  Inst_Printf("call_c", FAST "Pl_Allocate(%d)", n);
}

void ref_F_deallocate(ArgVal arg[])
{
  Inst_Printf("call_c", FAST "Pl_Deallocate()");
}

void ref_F_call(ArgVal arg[])
{
  Args1(MP_N(m, p, n));

  Mangle(m, p, (int) n, buff_mangle);

  Inst_Printf("pl_call", "%s", buff_mangle);
}

void ref_F_execute(ArgVal arg[])
{
  Args1(MP_N(m, p, n));

  Mangle(m, p, (int) n, buff_mangle);

  Inst_Printf("pl_jump", "%s", buff_mangle);
}

void ref_F_proceed(ArgVal arg[])
{
  Inst_Printf("pl_ret", "");
}

void ref_F_fail(ArgVal arg[])
{
  Inst_Printf("pl_fail", "");
}

void ref_F_label(ArgVal arg[])
{
  Args1(LABEL(l));
  Label_Printf("\n%s:", l);
}

void ref_F_switch_on_term(ArgVal arg[])
{
#define NB_SWT_LIST 5

#define LVAR 1
#define LATM 2
#define LINT 4
#define LLST 8
#define LSTC 16

  Args0;
  DEF_C_INT(val_label);
  static char l[NB_SWT_LIST][MAX_LABEL_LENGTH];
  int mask = 0, i;

  for (i = 0; i < NB_SWT_LIST; i++)
    {
      LOAD_C_INT(val_label);

      if (val_label == -1)
	strcpy(l[i], "0");
      else
	{
	  sprintf(l[i], "&" FORMAT_LABEL(val_label));
	  mask |= (1 << i);
	}
    }

  switch(mask)
    {
    case LVAR | LATM:
      Inst_Printf("call_c", FAST "Pl_Switch_On_Term_Var_Atm(%s,%s)", l[0], l[1]);
      break;

    case LVAR | LSTC:
      Inst_Printf("call_c", FAST "Pl_Switch_On_Term_Var_Stc(%s,%s)", l[0], l[4]);
      break;

    case LVAR | LATM | LLST:
      Inst_Printf("call_c", FAST "Pl_Switch_On_Term_Var_Atm_Lst(%s,%s,%s)", l[0], l[1], l[3]);
      break;

    case LVAR | LATM | LSTC:
      Inst_Printf("call_c", FAST "Pl_Switch_On_Term_Var_Atm_Stc(%s,%s,%s)", l[0], l[1], l[4]);
      break;

    default:
      Inst_Printf("call_c", FAST "Pl_Switch_On_Term(%s,%s,%s,%s,%s)", l[0], l[1], l[2], l[3], l[4]);
      break;
    }

  Inst_Printf("jump_ret", "");
}

SwtTbl * ref_Create_Switch_Table(int type, int nb_elem)
{
  SwtTbl *t;

  t = (SwtTbl *) malloc(sizeof(SwtTbl) + sizeof(SwtElt) * (nb_elem - 1));
  if (t == NULL)
    {
      fprintf(stderr, "Cannot allocate memory for switch table\n");
      exit(1);
    }

  t->type = type;
  t->tbl_no = nb_swt_tbl++;
  t->next = cur_pred->swt_tbl[type];
  t->nb_elem = nb_elem;

  cur_pred->swt_tbl[type] = t;

  return t;
}

void ref_F_switch_on_atom(ArgVal arg[])
{
  SwtTbl *t;
  SwtElt *elem;

  DEF_STR(str);
  DEF_C_INT(label);
  Args1(C_INT(nb_elem));

  t = Create_Switch_Table(TBL_ATM, (int) nb_elem);

  for (elem = t->elem; nb_elem--; elem++)
    {
      LOAD_STR(str);
      LOAD_C_INT(label);
      elem->atom = map_put(&map_atom, str, NULL);
      elem->label = label;
    }

  Inst_Printf("call_c", FAST "Pl_Switch_On_Atom(st(%d),%d)", nb_swt_tbl - 1, t->nb_elem);
  Inst_Printf("jump_ret", "");
}

void ref_F_switch_on_integer(ArgVal arg[])
{

  char c;
  int i;

  DEF_INTEGER(n);
  DEF_LABEL(l);
  Args1(C_INT(nb_elem));

  Inst_Printf("call_c", FAST "Pl_Switch_On_Integer_For_Dichotomy()");
  Inst_Printf("switch_ret", NULL);
  c = '(';
  for(i = 0; i < nb_elem; i++)
    {
      LOAD_C_INT(n);
      LOAD_LABEL(l);
      if (i % 5 == 0 && i > 0)
	{
	  fprintf(file_out, "%c\\\n\t\t   ", c);
	  c = ' ';
	}
      fprintf(file_out, "%c%" PL_FMT_d "=%s", c, n, l);
      c = ',';
    }
  fprintf(file_out, ")\n");

}

void ref_F_switch_on_structure(ArgVal arg[])
{
  SwtTbl *t;
  SwtElt *elem;

  DEF_STR(str);
  DEF_C_INT(arity);
  DEF_C_INT(label);
  Args1(C_INT(nb_elem));

  t = Create_Switch_Table(TBL_STC, (int) nb_elem);

  for (elem = t->elem; nb_elem--; elem++)
    {
      LOAD_STR(str);
      LOAD_C_INT(arity);
      LOAD_C_INT(label);
      elem->atom = map_put(&map_atom, str, NULL);
      elem->n = arity;
      elem->label = label;
    }

  Inst_Printf("call_c", FAST "Pl_Switch_On_Structure(st(%d),%d)", nb_swt_tbl - 1, t->nb_elem);
  Inst_Printf("jump_ret", "");
}

void ref_F_try_me_else(ArgVal arg[])
{
  Args1(LABEL(l));
  CREATE_CHOICE_INST(l);
}

void ref_F_retry_me_else(ArgVal arg[])
{
  Args1(LABEL(l));
  UPDATE_CHOICE_INST(l);
}

void ref_F_trust_me_else_fail(ArgVal arg[])
{
  DELETE_CHOICE_INST;
}

void ref_F_try(ArgVal arg[])
{
  char sl[MAX_LABEL_LENGTH];

  Args1(LABEL(l));

  sprintf(sl, FORMAT_SUB_LABEL(cur_sub_label++));

  CREATE_CHOICE_INST(sl);
  Inst_Printf("jump", "%s", l);
  Label_Printf("%s:", sl);
}

void ref_F_retry(ArgVal arg[])
{
  char sl[MAX_LABEL_LENGTH];

  Args1(LABEL(l));

  sprintf(sl, FORMAT_SUB_LABEL(cur_sub_label++));

  UPDATE_CHOICE_INST(sl);
  Inst_Printf("jump", "%s", l);
  Label_Printf("%s:", sl);
}

void ref_F_trust(ArgVal arg[])
{
  Args1(LABEL(l));

  DELETE_CHOICE_INST;
  Inst_Printf("jump", "%s", l);
}

void ref_F_pragma_arity(ArgVal arg[])
{
  Args1(C_INT(a));

  cur_arity = (int) a;
}

void ref_F_get_current_choice(ArgVal arg[])
{
  Args1(X_Y(xy));

  Inst_Printf("call_c", FAST "Pl_Get_Current_Choice()");
  Inst_Printf("move_ret", "%c(%d)", c, xy);
}

void ref_F_cut(ArgVal arg[])
{
  Args1(X_Y(xy));
  Inst_Printf("call_c", FAST "Pl_Cut(%c(%d))", c, xy);
}

void ref_F_soft_cut(ArgVal arg[])
{
  Args1(X_Y(xy));
  Inst_Printf("call_c", FAST "Pl_Soft_Cut(%c(%d))", c, xy);
}

void ref_F_call_c(ArgVal arg[])
{
  int ret = 0;
  Bool fast_call = FALSE;
  Bool tagged = FALSE;
  Bool set_cp = FALSE;
  int ret_xy = 0;
  char ret_c = 0;
  int i;

  DEF_STR(c_option);
  DEF_C_INT(arg_type);
  DEF_ATOM(atom);
  DEF_INTEGER(n);
  DEF_FLOAT(n1);
  DEF_X_Y(xy);
  DEF_STR(module);
  DEF_STR(functor);
  DEF_C_INT(arity);

  Args2(STR(fct_name), C_INT(nb_elem));

  for (i = 0; i < nb_elem; i++)
    {
      LOAD_C_INT(arg_type);
      if (arg_type == X_Y)
	{
	  LOAD_X_Y(xy);
	  ret = 3;
	  ret_xy = xy;
	  ret_c = c;
	  continue;
	}

      if (arg_type != ATOM)
	Syntax_Error("unrecognized call_c option (in first list, atoms are expected)");

      LOAD_STR(c_option);
      if (strcmp(c_option, "boolean") == 0)
	ret = 1;
      else if (strcmp(c_option, "jump") == 0)
	ret = 2;
      else if (strcmp(c_option, "fast_call") == 0)
	fast_call = TRUE;
      else if (strcmp(c_option, "tagged") == 0)
	tagged = TRUE;
      else if (strcmp(c_option, "set_cp") == 0)
	set_cp = TRUE;
    }

  LOAD_C_INT(nb_elem);

  if (set_cp)
    Inst_Printf("prep_cp", "");

  Inst_Printf("call_c", NULL);
  if (fast_call)
    fputs(FAST "", file_out);

  fprintf(file_out, "%s(", fct_name);

  i = 0;
  while(i < nb_elem)
    {
      LOAD_C_INT(arg_type);
      switch(arg_type)
	{
	case ATOM:
	  if (tagged)
	    {
	      LOAD_ATOM_1(atom);
	      fprintf(file_out, "ta(%d)", atom->value);
	    }
	  else
	    {
	      LOAD_ATOM_0(atom);
	      fprintf(file_out, "at(%d)", atom->value);
	    }
	  break;

	case INTEGER:
	  LOAD_INTEGER(n);
	  fprintf(file_out, "%" PL_FMT_d, (tagged) ? (PlLong) Tag_INT(n) : n);
	  break;

	case FLOAT:
	  LOAD_FLOAT(n1);
	  fprintf(file_out, "%1.20e", n1);
	  break;

	case ADR_OF_X_Y:
	  fprintf(file_out, "&");

	case X_Y:
	  LOAD_X_Y(xy);
	  fprintf(file_out, "%c(%d)", c, xy);
	  break;

	case F_N:
	  if (tagged)
	    {
	      DEF_F_N_1(atom, n);
	      LOAD_F_N_1(atom, n);
	      fprintf(file_out, "fn(%d)", f_n_no);
	    }
	  else
	    {
	      DEF_F_N_0(atom, n);
	      LOAD_F_N_0(atom, n);
	      fprintf(file_out, "at(%d),%d", atom->value, n);
	    }
	  break;

	case ADR_OF_MP_N:
	  LOAD_STR(module);
	  LOAD_STR(functor);
	  LOAD_C_INT(arity);
	  Mangle(module, functor, arity, buff_mangle);
	  fprintf(file_out, "&%s", buff_mangle);
	  break;
	}

      if (++i < nb_elem)
	fputc(',', file_out);
    }

  fprintf(file_out, ")\n");
  if (ret == 1)
    Inst_Printf("fail_ret", "");
  else if (ret == 2)
    Inst_Printf("jump_ret", "");
  else if (ret == 3)
    Inst_Printf("move_ret", "%c(%d)", ret_c, ret_xy);

  if (set_cp)
    Inst_Printf("here_cp", "");
}

void ref_Init_Foreign_Table(void)
{
  foreign_tbl[FOREIGN_TYPE_INTEGER] = "Integer";
  foreign_tbl[FOREIGN_TYPE_POSITIVE] = "Positive";
  foreign_tbl[FOREIGN_TYPE_FLOAT] = "Float";
  foreign_tbl[FOREIGN_TYPE_NUMBER] = "Number";
  foreign_tbl[FOREIGN_TYPE_ATOM] = "Atom";
  foreign_tbl[FOREIGN_TYPE_BOOLEAN] = "Boolean";
  foreign_tbl[FOREIGN_TYPE_CHAR] = "Char";
  foreign_tbl[FOREIGN_TYPE_IN_CHAR] = "In_Char";
  foreign_tbl[FOREIGN_TYPE_CODE] = "Code";
  foreign_tbl[FOREIGN_TYPE_IN_CODE] = "In_Code";
  foreign_tbl[FOREIGN_TYPE_BYTE] = "Byte";
  foreign_tbl[FOREIGN_TYPE_IN_BYTE] = "In_Byte";
  foreign_tbl[FOREIGN_TYPE_STRING] = "String";
  foreign_tbl[FOREIGN_TYPE_CHARS] = "Chars";
  foreign_tbl[FOREIGN_TYPE_CODES] = "Codes";
  foreign_tbl[FOREIGN_TYPE_TERM] = "Term";
}

void
F_foreign_call_c(ArgVal arg[])

#define F_Double(t) ((t)==FOREIGN_TYPE_FLOAT || (t)==FOREIGN_TYPE_NUMBER)
#define F_Array_Letter(t) (F_Double(t) ? 'D' : 'L')

{
  static int mode[NB_OF_X_REGS], type[NB_OF_X_REGS];
  int i, j, n, fio_arg_index = 0, nb_c_str = 0, s_dup, complex_jump_ret = 0;
  char c;
  char l[MAX_LABEL_LENGTH];

  DEF_STR(str_mode);
  DEF_STR(str_type);

  Args6(STR(fct_name), STR(ret_mode), STR(bip_name), C_INT(bip_arity), C_INT(chc_size), C_INT(nb_elem));

  for (i = 0; i < nb_elem; i++)
    {
      LOAD_STR(str_mode);
      LOAD_STR(str_type);

      if (strcmp(str_mode, "in") == 0)
	mode[i] = FOREIGN_MODE_IN;
      else if (strcmp(str_mode, "out") == 0)
	mode[i] =  FOREIGN_MODE_OUT;
      else if (strcmp(str_mode, "in_out") == 0)
	mode[i] =  FOREIGN_MODE_IN_OUT;

      j = 0;
      for (;;)
	if (strcasecmp(foreign_tbl[j], str_type) == 0)
	  break;
	else if (++j >= FOREIGN_TBL_SIZE)
	  {
	    fprintf(stderr, "invalid foreign type:%s\n", str_type);
	    exit(1);
	  }

      type[i] = j;
      if ((mode[i] == FOREIGN_MODE_IN || mode[i] == FOREIGN_MODE_IN_OUT) &&
	  (j == FOREIGN_TYPE_CHARS || j == FOREIGN_TYPE_CODES))
	nb_c_str++;
    }

  if (chc_size >= 0)
    {
      sprintf(l, FORMAT_LABEL(1));
      Inst_Printf("call_c", "Pl_Foreign_Create_Choice(&%s,%d,%d)", l, cur_arity, chc_size);
      Label_Printf("%s:", l);
      Inst_Printf("call_c", "Pl_Foreign_Update_Choice(&%s,%d,%d)", l, cur_arity, chc_size);
    }

  if (*bip_name || bip_arity != -2)
    Inst_Printf("call_c", "Pl_Set_C_Bip_Name(\"%s\",%d)", bip_name, bip_arity);

  for (i = 0; i < nb_elem; i++)
    {
      n = type[i];
      c = F_Array_Letter(n);

      s_dup = (mode[i] == FOREIGN_MODE_IN || mode[i] == FOREIGN_MODE_IN_OUT) &&
	(n == FOREIGN_TYPE_CHARS || n == FOREIGN_TYPE_CODES) && --nb_c_str != 0;

      switch (mode[i])
	{
	case FOREIGN_MODE_IN:
	  if (n != FOREIGN_TYPE_TERM)
	    {
	      Inst_Printf("call_c", "Pl_Rd_%s_Check(X(%d))", foreign_tbl[n], i);
	      Inst_Printf("move_ret", "F%c(%d)", c, i);

	      if (s_dup)
		{
		  Inst_Printf("call_c", "Pl_Strdup_Check(FL(%d),\"call generated by %s\",%d)",
			      i, __FILE__, __LINE__);
		  Inst_Printf("move_ret", "FL(%d)", i);
		}
	    }
	  break;

	case FOREIGN_MODE_OUT:
	  complex_jump_ret = 1;
	  if (n != FOREIGN_TYPE_TERM)
	    Inst_Printf("call_c", "Pl_Check_For_Un_%s(X(%d))", foreign_tbl[n], i);
	  break;

	case FOREIGN_MODE_IN_OUT:
	  complex_jump_ret = 1;
	  if (n != FOREIGN_TYPE_TERM)
	    Inst_Printf("call_c", "Pl_Foreign_Rd_IO_Arg(%d,X(%d),"
			"&Pl_Rd_%s_Check,%d)", (c == 'L') + s_dup,
			i, foreign_tbl[n], fio_arg_index++);
	  else
	    Inst_Printf("call_c", "Pl_Foreign_Rd_IO_Arg(1,X(%d),0,%d)", i, fio_arg_index++);
	  Inst_Printf("move_ret", "FL(%d)", i);
	  break;
	}
    }

  Inst_Printf("call_c", NULL);
  fprintf(file_out, "%s(", fct_name);
  for (i = 0; i < nb_elem; i++)
    {
      n = type[i];
      c = (mode[i] == FOREIGN_MODE_IN_OUT) ? 'L' : F_Array_Letter(n);
      if (i > 0)
	fputc(',', file_out);
      if (mode[i] == FOREIGN_MODE_OUT)
	fprintf(file_out, "&");
      if (n == FOREIGN_TYPE_TERM && mode[i] == FOREIGN_MODE_IN)
	fprintf(file_out, "X(%d)", i);
      else
	fprintf(file_out, "F%c(%d)", c, i);
    }

  fprintf(file_out, ")\n");
  if (strcmp(ret_mode, "jump") == 0)
    {
      if (!complex_jump_ret)
	Inst_Printf("jump_ret", "");
      else
	Inst_Printf("move_ret", "FL(%d)", NB_OF_X_REGS - 1);
    }
  else
    {
      complex_jump_ret = 0;
      if (strcmp(ret_mode, "boolean") == 0)
	Inst_Printf("fail_ret", "");
    }

  for (i = 0; i < nb_elem; i++)
    {
      n = type[i];
      c = F_Array_Letter(type[i]);
      switch (mode[i])
	{
	case FOREIGN_MODE_OUT:
	  if (n != FOREIGN_TYPE_TERM)
	    Inst_Printf("call_c", "Pl_Un_%s(F%c(%d),X(%d))", foreign_tbl[n], c, i, i);
	  else
	    Inst_Printf("call_c", FAST "Pl_Unify(X(%d),FL(%d))", i, i);
	  Inst_Printf("fail_ret", "");
	  break;

	case FOREIGN_MODE_IN_OUT:
	    Inst_Printf("call_c", "Pl_Foreign_Un_IO_Arg(%d,&Pl_Un_%s,FL(%d),"
			"X(%d))", c == 'L', foreign_tbl[n], i, i);
	  Inst_Printf("fail_ret", "");
	  break;
	}
    }

  if (complex_jump_ret)
    {
      Inst_Printf("call_c", "Pl_Foreign_Jump_Ret(FL(%d))", NB_OF_X_REGS - 1);
      Inst_Printf("jump_ret", "");
    }
}

void ref_Emit_Unit_Initializer(void)
{
  SwtTbl *t;
  Pred *p;
  int i, j;
  char l[MAX_LABEL_LENGTH];
  char *q;

  Label_Printf("\n");

  if (map_atom.size)
    Label_Printf("long local at(%d)", map_atom.size);

  if (map_tagged_atom.size)
    Label_Printf("long local ta(%d)", map_tagged_atom.size);

  if (map_tagged_f_n.size)
    Label_Printf("long local fn(%d)", map_tagged_f_n.size);

  if (nb_swt_tbl)
    Label_Printf("long local st(%d)", nb_swt_tbl);

  Label_Printf("\n");

  Label_Printf("c_code  initializer Unit_Constructor\n");
  Inst_Printf("call_c", "Pl_Register_Unit(&Unit_Initializer,"
	      "&System_Directives,&User_Directives)");
  Inst_Printf("c_ret", "");
  Label_Printf("\n");

  Label_Printf("c_code  local Unit_Initializer\n");

  map_foreach(&map_atom, entry)
    {
      Emit_One_Atom(entry);
    }
  map_foreach(&map_tagged_atom, entry)
    {
      Emit_One_Atom_Tagged(entry);
    }

  map_foreach(&map_tagged_f_n, entry)
    {
      Emit_One_F_N_Tagged(entry);
    }

  cur_pred_no = 0;
  for (p = dummy_pred_start.next; p; p = p->next)
    {
      fputc('\n', file_out);

      if (p->prop & MASK_PRED_NATIVE_CODE)
	q = p->mangle;
      else
	q = "0";

      Inst_Printf("call_c", FAST "Pl_Create_Pred(at(%d),%d,at(%d),%d,%d,%s)",
		  p->functor->value, p->arity, p->pl_file->value, p->pl_line,
		  p->prop, q);

      cur_pred_no++;

      for (i = 0; i < 3; i++)
	for (t = p->swt_tbl[i]; t != NULL; t = t->next)
	  {
	    Inst_Printf("call_c", FAST "Pl_Create_Swt_Table(%d)", t->nb_elem);
	    Inst_Printf("move_ret", "st(%d)", t->tbl_no);

	    switch (i)
	      {
	      case TBL_ATM:
		for (j = 0; j < t->nb_elem; j++)
		  {
		    sprintf(l, FORMAT_LABEL(t->elem[j].label));
		    Inst_Printf("call_c", FAST
				"Pl_Create_Swt_Atm_Element(st(%d),%d,at(%d),&%s)",
				t->tbl_no, t->nb_elem, (t->elem[j].atom)->value, l);
		  }
		break;

	      default:
		for (j = 0; j < t->nb_elem; j++)
		  {
		    sprintf(l, FORMAT_LABEL(t->elem[j].label));
		    Inst_Printf("call_c", FAST
				"Pl_Create_Swt_Stc_Element(st(%d),%d,at(%d),%" PL_FMT_d ",&%s)",
				t->tbl_no, t->nb_elem,
				(t->elem[j].atom)->value, t->elem[j].n, l);
		  }
	      }
	  }
    }

  Inst_Printf("c_ret", "");
}

void ref_Emit_Exec_Directives(void)
{
  int i;
  Direct *p;

  fputc('\n', file_out);
  Label_Printf("c_code  local System_Directives\n");

  i = 0;
  for (p = dummy_direct_start.next; p; p = p->next)
    {
      i++;
      if (!p->system)
	continue;

      Inst_Printf("call_c", "Pl_Execute_Directive(at(%d),%d,%d,&directive_%d)",
		  p->pl_file->value, p->pl_line, 1, i);
    }

  Inst_Printf("c_ret", "");

  fputc('\n', file_out);
  Label_Printf("c_code  local User_Directives\n");

  i = 0;
  for (p = dummy_direct_start.next; p; p = p->next)
    {
      i++;
      if (p->system)
	continue;

      Inst_Printf("call_c", "Pl_Execute_Directive(at(%d),%d,%d,&directive_%d)",
		  p->pl_file->value, p->pl_line, 0, i);
    }

  Inst_Printf("c_ret", "");
}

void ref_Emit_One_Atom(struct map_entry *entry)
{
  Inst_Printf("call_c", "Pl_Create_Atom(\"%s\")", entry->key);
  Inst_Printf("move_ret", "at(%d)", entry->value);
}

void ref_Emit_One_Atom_Tagged(struct map_entry *entry)
{
  struct map_entry *atom = map_get(&map_atom, entry->key);

  if (atom)
    Inst_Printf("call_c", FAST "Pl_Put_Atom(at(%d))", atom->value);
  else
    Inst_Printf("call_c", FAST "Pl_Create_Atom_Tagged(\"%s\")", entry->key);

  Inst_Printf("move_ret", "ta(%d)", entry->value);
}

int ref_Add_F_N_Tagged(char *atom, int n)
{
  int l = (int) strlen(atom);

  atom = (char *) realloc(atom, l + 5 + 1);
  sprintf(atom + l, "/%d", n);

  return map_put(&map_tagged_f_n, atom, NULL)->value;
}

void ref_Emit_One_F_N_Tagged(struct map_entry *entry)
{
  int n;
  char *str = entry->key;
  char *p;

  for(p = str + strlen(str) - 1; *p != '/'; p--)
    ;

  n = atoi(p+1);
  *p = '\0';

  Inst_Printf("call_c", FAST "Pl_Create_Functor_Arity_Tagged(\"%s\",%d)", str, n);
  Inst_Printf("move_ret", "fn(%d)", entry->value);
}

void ref_Label_Printf(char *label, ...)
{
  va_list arg_ptr;

  va_start(arg_ptr, label);

  vfprintf(file_out, label, arg_ptr);

  va_end(arg_ptr);
  fputc('\n', file_out);
}

void ref_Inst_Printf(char *op, char *operands, ...)
{
  va_list arg_ptr;

  va_start(arg_ptr, operands);

  fprintf(file_out, "\t%-10s ", op);
  if (operands)
    {
      vfprintf(file_out, operands, arg_ptr);
      fputc('\n', file_out);
    }

  va_end(arg_ptr);
}

void ref_Parse_Arguments(int argc, char *argv[])
{
  static char str[1024];
  int i;

  file_name_in = file_name_out = NULL;
  comment = FALSE;

  for (i = 1; i < argc; i++)
    {
      if (*argv[i] == '-' && argv[i][1] != '\0')
	{
	  if (Check_Arg(i, "-o") || Check_Arg(i, "--output"))
	    {
	      if (++i >= argc)
		{
		  fprintf(stderr, "FILE missing after %s option\n", argv[i - 1]);
		  exit(1);
		}

	      file_name_out = argv[i];
	      continue;
	    }

	  if (Check_Arg(i, "--comment"))
	    {
	      comment = TRUE;
	      continue;
	    }

	  if (Check_Arg(i, "--version"))
	    {
	      Display_Copying("WAM to Mini-Assembly Compiler");
	      exit(0);
	    }

	  if (Check_Arg(i, "-h") || Check_Arg(i, "--help"))
	    {
	      Display_Help();
	      exit(0);
	    }

	  fprintf(stderr, "unknown option %s - try wam2ma --help\n", argv[i]);
	  exit(1);
	}

      if (file_name_in != NULL)
	{
	  fprintf(stderr, "input file already specified (%s)\n", file_name_in);
	  exit(1);
	}
      file_name_in = argv[i];
    }

  if (file_name_in != NULL && strcmp(file_name_in, "-") == 0)
    file_name_in = NULL;

  if (file_name_out == NULL && file_name_in != NULL)
    {
      strcpy(str, file_name_in);
      i = (int) strlen(str);
      if (strcmp(str + i - 4, ".wam") == 0)
	strcpy(str + i - 4, DEFAULT_OUTPUT_SUFFIX);
      else
	strcpy(str + i, DEFAULT_OUTPUT_SUFFIX);
      file_name_out = str;
    }

  if (file_name_out != NULL && strcmp(file_name_out, "-") == 0)
    file_name_out = NULL;
}

void
Display_Help(void)
#define L(msg) fprintf(stderr, "%s\n", msg)
{
  L("Usage: wam2ma [OPTION...] FILE");
  L("");
  L("Options:");
  L("  -o FILE, --output FILE      set output file name");
  L("  --comment                   include comments in the output file");
  L("  -h, --help                  print this help and exit");
  L("  --version                   print version number and exit");
  L("");
  L("'-' can be given as FILE for the standard input/output");
  L("");
  L("Visit www.gprolog.org for more information.");
}

#undef L
