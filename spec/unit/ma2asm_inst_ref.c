/* What the functions of ma2asm_inst.c are to do. */
#include "../EnginePl/gp_config.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

#include "../EnginePl/pl_long.h"
#include "../EnginePl/bool.h"

#define MAPPER_FILE

#include "ma_parser.h"
#include "ma_protos.h"

#include "../EnginePl/wam_regs.h"
#define FRAMES_ONLY
#include "../EnginePl/wam_inst.h"
#include "../EnginePl/machine_regs.h"
#include "../EnginePl/pl_params.h"
#include "../EnginePl/unit_ctor.h"

#define Y_OFFSET(index) ((int) ((- ENVIR_STATIC_SIZE - 1 - index) * sizeof(PlLong)))

#include <limits.h>
#include "macros_ref.h"

#define ASM_REG_BANK MAP_REG_BANK

#define LARGE_ADDRESS_AWARE 1

#define UN

#define MAX_C_ARGS_IN_C_CODE 32
#define RESERVED_STACK_SPACE MAX_C_ARGS_IN_C_CODE * 8

extern char asm_reg_e[32];
extern char asm_reg_b[32];
extern char asm_reg_cp[32];

extern int arg_reg_no;
extern int arg_dbl_reg_no;

#define MAX_ARGS_IN_REGS 6

extern char *arg_reg_name[MAX_ARGS_IN_REGS];

#define MAX_ARGS_DOUBLE_IN_REGS 8
extern char *arg_dbl_reg_name[MAX_ARGS_DOUBLE_IN_REGS];

char *Off_Reg_Bank(int offset);

#define LITTLE_INT(X) ((X) >= INT_MIN && (X) <= INT_MAX)
void Init_Mapper(void);
void Asm_Start(void);
char * Off_Reg_Bank(int offset);
void Asm_Stop(void);
void Code_Start(CodeInf *c);
void Code_Stop(CodeInf *c);
void Label(char *label);
void Reload_E_In_Register(void);
void Pl_Jump(char *label);
void Prep_CP(void);
void Here_CP(void);
void Pl_Call(char *label);
void Pl_Fail(Bool prefer_inline);
void Pl_Ret(void);
void Jump(char *label);
void Move_From_Reg_X(int index);
void Move_From_Reg_Y(int index);
void Move_To_Reg_X(int index);
void Move_To_Reg_Y(int index);
void Call_C_Start(char *fct_name, Bool fc, int nb_args, int nb_args_in_words);
int Call_C_Arg_Int(int offset, PlLong int_val);
int Call_C_Arg_Double(int offset, DoubleInf *d);
int Call_C_Arg_String(int offset, StringInf *s);
int Call_C_Arg_Mem_L(int offset, Bool adr_of, char *name, int index);
int Call_C_Arg_Reg_X(int offset, Bool adr_of, int index);
int Call_C_Arg_Reg_Y(int offset, Bool adr_of, int index);
int Call_C_Arg_Foreign_L(int offset, Bool adr_of, int index);
int Call_C_Arg_Foreign_D(int offset, Bool adr_of, int index);
void Call_C_Invoke(char *fct_name, Bool fc, int nb_args, int nb_args_in_words);
void Call_C_Stop(char *fct_name, int nb_args);
void Jump_Ret(void);
void Fail_Ret(void);
void Move_Ret_To_Mem_L(char *name, int index);
void Move_Ret_To_Reg_X(int index);
void Move_Ret_To_Reg_Y(int index);
void Move_Ret_To_Foreign_L(int index);
void Move_Ret_To_Foreign_D(int index);
void Cmp_Ret_And_Int(PlLong int_val);
void Jump_If_Equal(char *label);
void Jump_If_Greater(char *label);
void C_Ret(void);
void Dico_String_Start(int nb);
void Dico_String(StringInf *s);
void Dico_String_Stop(int nb);
void Dico_Double_Start(int nb);
void Dico_Double(DoubleInf *d);
void Dico_Double_Stop(int nb);
void Dico_Long_Start(int nb);
void Dico_Long(LongInf *l);
void Dico_Long_Stop(int nb);
void Data_Start(char *initializer_fct);
void Data_Stop(char *initializer_fct);
char *ref_arg_reg_name[MAX_ARGS_IN_REGS] = { "%rdi", "%rsi", "%rdx", "%rcx", "%r8", "%r9" };
char *ref_arg_dbl_reg_name[MAX_ARGS_DOUBLE_IN_REGS] = { "%xmm0", "%xmm1", "%xmm2", "%xmm3", "%xmm4", "%xmm5", "%xmm6", "%xmm7" };

void ref_Init_Mapper(void)
{
  mi.needs_pre_pass = FALSE;
  mi.can_produce_pic_code = TRUE;
  mi.comment_prefix = "#";

  mi.local_symb_prefix = ".L";
  mi.string_symb_prefix = ".LC";
  mi.double_symb_prefix = ".LCD";

  mi.strings_need_null = FALSE;
  mi.call_c_reverse_args = FALSE;
}

void ref_Asm_Start(void)
{

  strcpy(asm_reg_e, "%rbx");

  strcpy(asm_reg_b, MAP_REG_B);

  strcpy(asm_reg_cp, Off_Reg_Bank(MAP_OFFSET_CP));

  pic_code = FALSE;

  Label_Printf(".text");

}

char * ref_Off_Reg_Bank(int offset)
{
  static char str[32];

  sprintf(str, "%d(%s)", offset, ASM_REG_BANK);

  return str;
}

void ref_Asm_Stop(void)
{

  Inst_Printf(".section", ".note.GNU-stack,\"\",@progbits");

}

void ref_Code_Start(CodeInf *c)
{
  Label_Printf("%s", "");

  Inst_Printf(".p2align", "4,,15");

  Inst_Printf(".type", "%s,@function", c->name);

  if (c->global)
    Inst_Printf(".globl", UN "%s", c->name);

  Label(c->name);

  if (c->type == CODE_TYPE_C || c->type == CODE_TYPE_INITIALIZER)
    {

      Inst_Printf("pushq", "%%rbx");
      Inst_Printf("subq", "$%d, %%rsp", RESERVED_STACK_SPACE);
    }
}

void ref_Code_Stop(CodeInf *c)
{
}

void ref_Label(char *label)
{
  Label_Printf("%s", "");
  Label_Printf(UN "%s:", label);
}

void ref_Reload_E_In_Register(void)
{

  Inst_Printf("movq", "%s, %s", Off_Reg_Bank(MAP_OFFSET_E), asm_reg_e);

}

void ref_Pl_Jump(char *label)
{

  if (pic_code)
    Inst_Printf("jmp", UN "%s@PLT", label);
  else

    Inst_Printf("jmp", UN "%s", label);
}

void ref_Prep_CP(void)
{
  if (LARGE_ADDRESS_AWARE || pic_code)
    {
      Inst_Printf("leaq", "%s(%%rip), %%r10", Label_Cont_New());
      Inst_Printf("movq", "%%r10, %s", asm_reg_cp);
    }
  else
    {
      Inst_Printf("movq", "$%s, %s", Label_Cont_New(), asm_reg_cp);
    }
}

void ref_Here_CP(void)
{
  Label_Printf("%s:", Label_Cont_Get());
}

void ref_Pl_Call(char *label)
{
  Prep_CP();
  Pl_Jump(label);
  Here_CP();
}

void ref_Pl_Fail(Bool prefer_inline)
{
  if (prefer_inline)
    {

      Inst_Printf("jmp", "*-8(%s)", asm_reg_b);

    }
  else
    Jump("fail");
}

void ref_Pl_Ret(void)
{

  Inst_Printf("jmp", "*%s", asm_reg_cp);

}

void ref_Jump(char *label)
{

  if (pic_code)
    Inst_Printf("jmp", UN "%s@PLT", label);
  else

    Inst_Printf("jmp", UN "%s", label);
}

void ref_Move_From_Reg_X(int index)
{
  Inst_Printf("movq", "%s, %%rdx", Off_Reg_Bank(index * 8));
}

void ref_Move_From_Reg_Y(int index)
{
  Inst_Printf("movq", "%d(%s), %%rdx", Y_OFFSET(index), asm_reg_e);
}

void ref_Move_To_Reg_X(int index)
{
  Inst_Printf("movq", "%%rdx, %s", Off_Reg_Bank(index * 8));
}

void ref_Move_To_Reg_Y(int index)
{
  Inst_Printf("movq", "%%rdx, %d(%s)", Y_OFFSET(index), asm_reg_e);
}

void ref_Call_C_Start(char *fct_name, Bool fc, int nb_args, int nb_args_in_words)
{
  arg_reg_no = 0;
  arg_dbl_reg_no = 0;
}

#pragma GCC diagnostic push

#pragma GCC diagnostic ignored "-Wformat-overflow"

#define BEFORE_ARG { char r[32], *r_aux; Bool r_eq_r_aux = FALSE; if (arg_reg_no < MAX_ARGS_IN_REGS) { strcpy(r, arg_reg_name[arg_reg_no++]); r_aux = r; r_eq_r_aux = TRUE; } else { int nwords = offset - arg_reg_no - arg_dbl_reg_no; sprintf(r, "%d(%%rsp)", nwords * 8); r_aux = "%rax"; }

#define BEFORE_ARG_DOUBLE { char r[32], *r_aux; Bool r_eq_r_aux = FALSE; if (arg_dbl_reg_no < MAX_ARGS_DOUBLE_IN_REGS) { strcpy(r, arg_dbl_reg_name[arg_dbl_reg_no++]); r_aux = r; r_eq_r_aux = TRUE; } else { int nwords = offset - arg_reg_no - arg_dbl_reg_no; sprintf(r, "%d(%%rsp)", nwords * 8); r_aux = "%xmm8"; }

#define AFTER_ARG if (!r_eq_r_aux) Inst_Printf("movq", "%s, %s", r_aux, r); }

#define AFTER_ARG_DOUBLE if (!r_eq_r_aux) Inst_Printf("movq", "%s, %s", r_aux, r); }

#pragma GCC diagnostic pop

int ref_Call_C_Arg_Int(int offset, PlLong int_val)
{
  BEFORE_ARG;

  if (LITTLE_INT(int_val))
    {
      Inst_Printf("movq", "$%" PL_FMT_d ", %s", int_val, r);
      goto finish;
    }
  else
    Inst_Printf("movabsq", "$%" PL_FMT_d ", %s", int_val, r_aux);

  AFTER_ARG;

 finish:
  return 1;
}

int ref_Call_C_Arg_Double(int offset, DoubleInf *d)
{
  BEFORE_ARG_DOUBLE;

  Inst_Printf("movsd", "%s(%%rip), %s", d->symb, r_aux);

  AFTER_ARG_DOUBLE;

  return 1;
}

int ref_Call_C_Arg_String(int offset, StringInf *s)
{
  BEFORE_ARG;

  if (LARGE_ADDRESS_AWARE || pic_code)
    Inst_Printf("leaq", "%s(%%rip), %s", s->symb, r_aux);
  else
    Inst_Printf("movq", "$%s, %s", s->symb, r_aux);

  AFTER_ARG;

  return 1;
}

int ref_Call_C_Arg_Mem_L(int offset, Bool adr_of, char *name, int index)
{
  BEFORE_ARG;

  if (pic_code)
    {
      Inst_Printf("movq", UN "%s@GOTPCREL(%%rip), %s", name, r_aux);
      if (adr_of)
	{
	  if (index != 0)
	    Inst_Printf("addq", "$%d, %s", index * 8, r_aux);
	}
      else
	Inst_Printf("movq", "%d(%s), %s", index * 8, r_aux, r_aux);
    }
  else
    {
      if (adr_of)
	{
	  if (LARGE_ADDRESS_AWARE)
	    {
	      Inst_Printf("leaq", "%s+%d(%%rip), %s", name, index * 8, r_aux);
 	    }
	  else
	    Inst_Printf("movq", "$" "%s+%d, %s", name, index * 8, r);
	}
      else
	{
	  Inst_Printf("movq", "%s+%d(%%rip), %s", name, index * 8, r_aux);
	}
    }

  AFTER_ARG;

  return 1;
}

int ref_Call_C_Arg_Reg_X(int offset, Bool adr_of, int index)
{
  BEFORE_ARG;

  if (adr_of)
    {

      if (!r_eq_r_aux && index == 0)
        {
          Inst_Printf("movq", "%s, %s", ASM_REG_BANK, r);
	  goto finish;
        }

      Inst_Printf("leaq", "%s, %s", Off_Reg_Bank(index * 8), r_aux);
    }
  else
    Inst_Printf("movq", "%s, %s", Off_Reg_Bank(index * 8), r_aux);

  AFTER_ARG;

finish:
  return 1;
}

int ref_Call_C_Arg_Reg_Y(int offset, Bool adr_of, int index)
{
  BEFORE_ARG;

  if (adr_of)
    Inst_Printf("leaq", "%d(%s), %s", Y_OFFSET(index), asm_reg_e, r_aux);
  else
    Inst_Printf("movq", "%d(%s), %s", Y_OFFSET(index), asm_reg_e, r_aux);

  AFTER_ARG;

  return 1;
}

int ref_Call_C_Arg_Foreign_L(int offset, Bool adr_of, int index)
{
  BEFORE_ARG;

  if (pic_code)
    {
      Inst_Printf("movq", UN "pl_foreign_long@GOTPCREL(%%rip), %s", r_aux);
      if (adr_of)
	{
	  if (index != 0)
	    Inst_Printf("addq", "$%d, %s", index * 8, r_aux);
	}
      else
	Inst_Printf("movq", "%d(%s), %s", index * 8, r_aux, r_aux);
    }
  else
    {
      if (adr_of)
	{
	  if (LARGE_ADDRESS_AWARE)
	    Inst_Printf("leaq", UN "pl_foreign_long+%d(%%rip), %s", index * 8, r_aux);
	  else
	    Inst_Printf("movq", "$" UN "pl_foreign_long+%d, %s", index * 8, r_aux);
	}
      else
	{
	  Inst_Printf("movq", UN "pl_foreign_long+%d(%%rip), %s", index * 8, r_aux);
	}
    }

  AFTER_ARG;

  return 1;
}

int ref_Call_C_Arg_Foreign_D(int offset, Bool adr_of, int index)
{
  if (adr_of)
    {
      BEFORE_ARG;

      if (pic_code)
	{
	  Inst_Printf("movq", UN "pl_foreign_double@GOTPCREL(%%rip), %s", r_aux);
	  if (index != 0)
	    Inst_Printf("addq", "$%d, %s", index * 8, r_aux);
	}
      else
	{
	  if (LARGE_ADDRESS_AWARE)
	    Inst_Printf("leaq", UN "pl_foreign_double+%d(%%rip), %s", index * 8, r_aux);
	  else
	    Inst_Printf("movq", "$" UN "pl_foreign_double+%d, %s", index * 8, r_aux);
	}

      AFTER_ARG;
      return 1;
    }

  BEFORE_ARG_DOUBLE;

  if (pic_code)
    {
      Inst_Printf("movq", UN "pl_foreign_double@GOTPCREL(%%rip), %%r10");
      Inst_Printf("movsd", "%d(%%r10), %s", index * 8, r_aux);
    }
  else
    {
      Inst_Printf("movsd", UN "pl_foreign_double+%d(%%rip), %s", index * 8, r_aux);
    }

  AFTER_ARG_DOUBLE;

  return 1;
}

void ref_Call_C_Invoke(char *fct_name, Bool fc, int nb_args, int nb_args_in_words)
{

  if (pic_code)
    Inst_Printf("call", UN "%s@PLT", fct_name);
  else

    Inst_Printf("call", UN "%s", fct_name);
}

void ref_Call_C_Stop(char *fct_name, int nb_args)
{
}

void ref_Jump_Ret(void)
{
  Inst_Printf("jmp", "*%%rax");
}

void ref_Fail_Ret(void)
{
  Inst_Printf("test", "%%rax, %%rax");
  Inst_Printf("je", UN "fail");
}

void ref_Move_Ret_To_Mem_L(char *name, int index)
{
  if (pic_code)
    {
      Inst_Printf("movq", UN "%s@GOTPCREL(%%rip), " "%%r10", name);
      Inst_Printf("movq", "%%rax, " "%d(%%r10)", index * 8);
    }
  else
    {
      Inst_Printf("movq", "%%rax, " "%s+%d(%%rip)", name, index * 8);
    }
}

void ref_Move_Ret_To_Reg_X(int index)
{
  Inst_Printf("movq", "%%rax, %s", Off_Reg_Bank(index * 8));
}

void ref_Move_Ret_To_Reg_Y(int index)
{
  Inst_Printf("movq", "%%rax, %d(%s)", Y_OFFSET(index), asm_reg_e);
}

void ref_Move_Ret_To_Foreign_L(int index)
{
  if (pic_code)
    {
      Inst_Printf("movq", UN "pl_foreign_long@GOTPCREL(%%rip), " "%%r10");
      Inst_Printf("movq", "%%rax, " "%d(%%r10)", index * 8);
    }
  else
    {
      Inst_Printf("movq", "%%rax, " UN "pl_foreign_long+%d(%%rip)", index * 8);
    }
}

void ref_Move_Ret_To_Foreign_D(int index)
{
  if (pic_code)
    {
      Inst_Printf("movq", UN "pl_foreign_double@GOTPCREL(%%rip), " "%%r10");
      Inst_Printf("movsd", "%%xmm0, " "%d(%%r10)", index * 8);
    }
  else
    {
      Inst_Printf("movsd", "%%xmm0, " UN "pl_foreign_double+%d(%%rip)", index * 8);
    }
}

void ref_Cmp_Ret_And_Int(PlLong int_val)
{
  if (int_val == 0)
    Inst_Printf("testq", "%%rax, %%rax");
  else if (LITTLE_INT(int_val))
    Inst_Printf("cmpq", "$%" PL_FMT_d ", %%rax", int_val);
  else
    {

      Inst_Printf("movabsq", "$%" PL_FMT_d ", %%rdx", int_val);
      Inst_Printf("cmpq", "%%rdx, %%rax");
    }
}

void ref_Jump_If_Equal(char *label)
{
  Inst_Printf("je", UN "%s", label);
}

void ref_Jump_If_Greater(char *label)
{
  Inst_Printf("jg", UN "%s", label);
}

void ref_C_Ret(void)
{
  Inst_Printf("addq", "$%d, %%rsp", RESERVED_STACK_SPACE);
  Inst_Printf("popq", "%%rbx");
  Inst_Printf("ret", "%s", "");
}

void ref_Dico_String_Start(int nb)
{

  Inst_Printf(".section", ".rodata.str1.1,\"aMS\",@progbits,1");

}

void ref_Dico_String(StringInf *s)
{
  Label_Printf("%s:", s->symb);

  Inst_Printf(".string", "%s", s->str);

}

void ref_Dico_String_Stop(int nb)
{
}

void ref_Dico_Double_Start(int nb)
{

  Inst_Printf(".section", ".rodata.cst8,\"aM\",@progbits,8");

  Inst_Printf(".align", "8");
}

void ref_Dico_Double(DoubleInf *d)
{
  Label_Printf("%s:", d->symb);

  Inst_Printf(".quad", "%" FMT64_d, d->v.i64);

}

void ref_Dico_Double_Stop(int nb)
{
}

void ref_Dico_Long_Start(int nb)
{

  Label_Printf(".data");
  Inst_Printf(".align", "16");

}

void ref_Dico_Long(LongInf *l)
{
  PlLong size_bytes;
  switch (l->vtype)
    {
    case NONE:
    case ARRAY_SIZE:
      size_bytes = l->value * 8;

      if (!l->global)
        Inst_Printf(".local", UN "%s", l->name);

      Inst_Printf(".comm", UN "%s,%" PL_FMT_d ",8", l->name, size_bytes);

      break;

    case INITIAL_VALUE:
      if (l->global)
        Inst_Printf(".globl", UN "%s", l->name);

      Inst_Printf(".align", "8");

      Inst_Printf(".size", UN "%s,8", l->name);

      Label_Printf(UN "%s:", l->name);
      Inst_Printf(".quad", "%" PL_FMT_d, l->value);
      break;
    }
}

void ref_Dico_Long_Stop(int nb)
{

}

void ref_Data_Start(char *initializer_fct)
{
  if (initializer_fct == NULL)
    return;

  Inst_Printf(".section", ".ctors,\"aw\",@progbits");

  Inst_Printf(".p2align", "3");
  Inst_Printf(".quad", UN "%s", initializer_fct);
}

void ref_Data_Stop(char *initializer_fct)
{
}
