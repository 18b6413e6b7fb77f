/* What the functions of ma2asm.c are to do. */
#include "../EnginePl/gp_config.h"

#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>

#include "../EnginePl/pl_long.h"
#include "../EnginePl/bool.h"
#include "../TopComp/copying.h"

#define MA2ASM_FILE

#include "ma_parser.h"
#include "ma_protos.h"

#define MAP_KEY_TYPE char *
#define MAP_KEY_CMP(x,y) strcmp(x, y)

#define MAP_VALUE_TYPE CodeInf
#define MAP_NAME map_cod
#include "../Tools/map_rbtree.h"

#undef MAP_VALUE_TYPE
#undef MAP_NAME
#define MAP_VALUE_TYPE LongInf
#define MAP_NAME map_lng
#define MAP_RE_INCLUDE
#include "../Tools/map_rbtree.h"

#undef MAP_VALUE_TYPE
#undef MAP_NAME
#define MAP_VALUE_TYPE StringInf
#define MAP_NAME map_str
#define MAP_RE_INCLUDE
#include "../Tools/map_rbtree.h"

#undef MAP_VALUE_TYPE
#undef MAP_NAME
#define MAP_VALUE_TYPE DoubleInf
#define MAP_NAME map_dbl
#define MAP_RE_INCLUDE
#include "../Tools/map_rbtree.h"
#include "macros_ref.h"

#define DEFAULT_OUTPUT_SUFFIX ASM_SUFFIX

extern char *file_name_in;
extern char *file_name_out;

extern Bool comment;
extern Bool pic_code;
extern Bool ignore_fc;

extern MapperInf mi;

extern LabelGen lg_cont;

extern FILE *file_out;

struct map_rbt map_code = MAP_INIT;
struct map_rbt map_long = MAP_INIT;
struct map_rbt map_string = MAP_INIT;
struct map_rbt map_double = MAP_INIT;

extern char *initializer_fct;

extern char local_label[64];
extern int local_label_count;

StringInf *Record_String(char *str);

DoubleInf *Record_Double(char *ma_str, double dbl_val);

void Switch_Rec(int start, int stop, SwtInf swt[]);

void Switch_Equal(SwtInf *c);

int Switch_Cmp_Int(SwtInf *c1, SwtInf *c2);

void Inst_Out(char *op, char *operands);

void Char_Out(char c);

void String_Out(char *s);

void Int_Out(int d);

void Parse_Arguments(int argc, char *argv[]);

void Display_Help(void);

#define Check_Arg(i,str) (strncmp(argv[i], str, strlen(argv[i])) == 0)
int main(int argc, char *argv[]);
StringInf * Record_String(char *str);
DoubleInf * Record_Double(char *ma_str, double dbl_val);
void Declare_Initializer(char *init_fct);
void Decl_Code(CodeInf *c);
void Decl_Label(char *name, int approx_inst_line);
void Decl_Long(LongInf *l);
int Is_Code_Defined(char *name);
CodeInf * Get_Code_Infos(char *name);
LongInf * Get_Long_Infos(char *name);
CodeType Scope_Of_Symbol(char *name, Bool *global);
Bool Is_Symbol_Close_Enough(char *name, int dist_max);
void Call_C(char *fct_name, Bool fc, int nb_args, int nb_args_in_words, ArgInf arg[]);
void Switch_Ret(int nb_swt, SwtInf swt[]);
void Switch_Rec(int start, int stop, SwtInf swt[]);
void Switch_Equal(SwtInf *c);
int Switch_Cmp_Int(SwtInf *c1, SwtInf *c2);
void Label_Gen_Init(LabelGen *g, char *prefix);
char * Label_Gen_New(LabelGen *g);
char * Label_Gen_Get(LabelGen *g);
int Label_Gen_No(LabelGen *g);
void Label_Printf(char *label, ...);
void Inst_Printf(char *op, char *operands, ...);
void Inst_Out(char *op, char *operands);
void Char_Out(char c);
void String_Out(char *s);
void Int_Out(int d);
void Parse_Arguments(int argc, char *argv[]);


int ref_main(int argc, char *argv[])
{
  int n;

  mi.can_produce_pic_code = FALSE;
  mi.needs_pre_pass = FALSE;
  mi.comment_prefix = "#";
  mi.local_symb_prefix = "L";
  mi.string_symb_prefix = "LC";
  mi.double_symb_prefix = "LD";
  mi.strings_need_null = FALSE;
  mi.call_c_reverse_args = FALSE;

  Init_Mapper();

  Parse_Arguments(argc, argv);

  if (file_name_out == NULL)
    file_out = stdout;
  else if ((file_out = fopen(file_name_out, "wt")) == NULL)
    {
      fprintf(stderr, "cannot open output file %s\n", file_name_out);
      exit(1);
    }

  Label_Gen_Init(&lg_cont, "cont");

  Asm_Start();

  Label("fail");
  Pl_Fail(2);

  if (!Parse_Ma_File(file_name_in, comment))
    {
      fprintf(stderr, "Translation aborted\n");
      exit(1);
    }

  Data_Start(initializer_fct);

  n = map_string.size;
  if (n)
    {
      Dico_String_Start(n);
      map_foreach2(map_str, &map_string, entry)
	{
	  Dico_String(&entry->value);
	}
      Dico_String_Stop(n);
    }

  n = map_double.size;
  if (n)
    {
      Dico_Double_Start(n);
      map_foreach2(map_dbl, &map_double, entry)
        {
          if (comment)
	    Inst_Printf("", "%s %s", mi.comment_prefix, entry->value.cmt_str);
	  Dico_Double(&entry->value);
        }
      Dico_Double_Stop(n);
    }

  n = map_long.size;
  if (n)
    {
      Dico_Long_Start(n);
      map_foreach2(map_lng, &map_long, entry)
	{
	  Dico_Long(&entry->value);
	}
      Dico_Long_Stop(n);
    }

  Data_Stop(initializer_fct);

  Asm_Stop();

  if (file_out != stdout)
    fclose(file_out);

  exit(0);
}

StringInf * ref_Record_String(char *str)
{
  char label[32];
  bool created;
  struct map_str_entry *entry = map_str_put(&map_string, str, &created);
  StringInf *s = &entry->value;

  if (created)
    {
      s->no = map_string.counter_add - 1;
      s->str = str;
      sprintf(label, "%s%d", mi.string_symb_prefix, s->no);
      s->symb = strdup(label);
    }

  return s;
}

DoubleInf * ref_Record_Double(char *ma_str, double dbl_val)
{
  char label[32];
  static char cmt[64];
  bool created;
  struct map_dbl_entry *entry = map_dbl_put(&map_double, ma_str, &created);
  DoubleInf *d = &entry->value;

  if (created)
    {
      d->no = map_double.counter_add - 1;
      d->ma_str = ma_str;
      sprintf(label, "%s%d", mi.double_symb_prefix, d->no);
      d->symb = strdup(label);
      d->v.dbl = dbl_val;

      char *p = ma_str;
      while(*p && strchr("0123456789.-eE", *p))
	p++;

      d->is_ma_str_human = (*p == '\0');

      if (d->is_ma_str_human)
	d->cmt_str = d->ma_str;
      else
	{
	  sprintf(cmt, "%s = %1.17g", ma_str, dbl_val);
	  d->cmt_str = strdup(cmt);
	}
    }

  return d;
}

void ref_Declare_Initializer(char *init_fct)
{
  initializer_fct = init_fct;
}

void ref_Decl_Code(CodeInf *c)
{

  map_cod_put(&map_code, c->name, NULL)->value = *c;
}

void ref_Decl_Label(char *name, int approx_inst_line)
{
  CodeInf c_lab;
  c_lab.name = strdup(name);
  c_lab.approx_inst_line = approx_inst_line;
  c_lab.type = CODE_TYPE_LABEL;
  c_lab.global = FALSE;
  Decl_Code(&c_lab);
}

void ref_Decl_Long(LongInf *l)
{

  map_lng_put(&map_long, l->name, NULL)->value = *l;
}

int ref_Is_Code_Defined(char *name)
{

  return map_cod_contains(&map_code, name);
}

CodeInf * ref_Get_Code_Infos(char *name)
{
  struct map_cod_entry *entry = map_cod_get(&map_code, name);

  return (entry == NULL) ? NULL : &entry->value;
}

LongInf * ref_Get_Long_Infos(char *name)
{
  struct map_lng_entry *entry = map_lng_get(&map_long, name);

  return (entry == NULL) ? NULL : &entry->value;
}

CodeType ref_Scope_Of_Symbol(char *name, Bool *global)
{
  CodeInf *c;
  LongInf *l;

  c = Get_Code_Infos(name);
  if (c)
    {
      *global = c->global;
      return c->type;
    }

  l = Get_Long_Infos(name);
  if (l)
    {

      *global = l->global;
      return CODE_TYPE_NONE;
    }

#define Has_Prefix(p) (*p && strncmp(name, p, strlen(p)) == 0)

  if (*name == '.' ||
      Has_Prefix(mi.local_symb_prefix) ||
      Has_Prefix(mi.string_symb_prefix) ||
      Has_Prefix(mi.double_symb_prefix))
    {

      *global = FALSE;
      return CODE_TYPE_NONE;
    }

  *global = TRUE;
  return CODE_TYPE_C;
}

Bool ref_Is_Symbol_Close_Enough(char *name, int dist_max)
{
  CodeInf *c;
  int line_def;
  int dist;

  if (name == NULL || strcmp(name, "fail") == 0)
    line_def = 0;
  else if ((c = Get_Code_Infos(name)) != NULL)
    line_def = c->approx_inst_line;
  else
    line_def = nb_appox_inst_line;

  dist = abs(line_def - cur_approx_inst_line);

  return dist < dist_max;
}

void ref_Call_C(char *fct_name, Bool fc, int nb_args, int nb_args_in_words, ArgInf arg[])
{
  unsigned i;
  int inc;
  int offset = 0;
  StringInf *s;
  DoubleInf *d;

  if (ignore_fc)
    fc = FALSE;

  Call_C_Start(fct_name, fc, nb_args, nb_args_in_words);

  if (!mi.call_c_reverse_args)
    i = 0, inc = 1;
  else
    i = nb_args - 1, inc = -1;

  for (; i < (unsigned) nb_args; i += inc)
    {
      switch (arg[i].type)
	{
	case INTEGER:
	  offset += Call_C_Arg_Int(offset, arg[i].int_val);
	  break;

	case FLOAT:
	  d = Record_Double(arg[i].str_val, arg[i].dbl_val);
	  if (comment)
	    Inst_Printf("", "%s %s", mi.comment_prefix, d->cmt_str);
	  offset += Call_C_Arg_Double(offset, d);
	  break;

	case STRING:
	  s = Record_String(arg[i].str_val);
	  if (comment)
	    Inst_Printf("", "%s %s", mi.comment_prefix, s->str);
	  offset += Call_C_Arg_String(offset, s);
	  break;

	case MEM:
	  offset += Call_C_Arg_Mem_L(offset, arg[i].adr_of, arg[i].str_val, arg[i].index);
	  break;

	case X_REG:
	  offset += Call_C_Arg_Reg_X(offset, arg[i].adr_of, arg[i].index);
	  break;

	case Y_REG:
	  offset += Call_C_Arg_Reg_Y(offset, arg[i].adr_of, arg[i].index);
	  break;

	case FL_ARRAY:
	  offset += Call_C_Arg_Foreign_L(offset, arg[i].adr_of, arg[i].index);
	  break;

	case FD_ARRAY:
	  offset += Call_C_Arg_Foreign_D(offset, arg[i].adr_of, arg[i].index);
	  break;

	default:
	  ;
	}
    }

  Call_C_Invoke(fct_name, fc, nb_args, nb_args_in_words);

  Call_C_Stop(fct_name, nb_args);
}

void ref_Switch_Ret(int nb_swt, SwtInf swt[])
{
  qsort((void *) swt, nb_swt, sizeof(SwtInf), (int (*)(const void *, const void *)) Switch_Cmp_Int);

  Switch_Rec(0, nb_swt - 1, swt);
}

void ref_Switch_Rec(int start, int stop, SwtInf swt[])
{
  int mid;
  char lab_cont[32];

  switch (stop - start + 1)
    {
    case 1:
      Switch_Equal(swt + start);
      Pl_Fail(FALSE);
      break;

    case 2:
      Switch_Equal(swt + start);
      Switch_Equal(swt + stop);
      Pl_Fail(FALSE);
      break;

    case 3:
      Switch_Equal(swt + start);
      Switch_Equal(swt + start + 1);
      Switch_Equal(swt + stop);
      Pl_Fail(FALSE);
      break;

    default:
      mid = (start + stop) / 2;
      Switch_Equal(swt + mid);
      strcpy(lab_cont, Label_Cont_New());
      Decl_Label(lab_cont, cur_approx_inst_line + mid);

      Jump_If_Greater(lab_cont);
      Switch_Rec(start, mid - 1, swt);
      Label(lab_cont);
      Switch_Rec(mid + 1, stop, swt);
    }
}

void ref_Switch_Equal(SwtInf *c)
{
  Cmp_Ret_And_Int(c->int_val);
  Jump_If_Equal(c->label);
}

int ref_Switch_Cmp_Int(SwtInf *c1, SwtInf *c2)
{
  return (int) (c1->int_val - c2->int_val);
}

void ref_Label_Gen_Init(LabelGen *g, char *prefix)
{
  g->prefix = prefix;
  g->no = 0;
  g->label[0] = '\0';
}

char * ref_Label_Gen_New(LabelGen *g)
{
  sprintf(g->label, "%s%s%d", mi.local_symb_prefix, g->prefix, ++g->no);
  return g->label;
}

char * ref_Label_Gen_Get(LabelGen *g)
{
  return g->label;
}

int ref_Label_Gen_No(LabelGen *g)
{
  return g->no;
}

void ref_Label_Printf(char *label, ...)
{
  va_list arg_ptr;

  va_start(arg_ptr, label);

  vfprintf(file_out, label, arg_ptr);

  va_end(arg_ptr);
  fputc('\n', file_out);
}

void ref_Inst_Printf(char *op, char *operands, ...)
{
  va_list arg_ptr;

  va_start(arg_ptr, operands);

  fprintf(file_out, "\t%s\t", op);
  vfprintf(file_out, operands, arg_ptr);

  va_end(arg_ptr);
  fputc('\n', file_out);
}

void ref_Inst_Out(char *op, char *operands)
{
  fprintf(file_out, "\t%s\t%s\n", op, operands);
}

void ref_Char_Out(char c)
{
  fprintf(file_out, "%c", c);
}

void ref_String_Out(char *s)
{
  fprintf(file_out, "%s", s);
}

void ref_Int_Out(int d)
{
  fprintf(file_out, "%d", d);
}

void ref_Parse_Arguments(int argc, char *argv[])
{
  static char str[1024];
  int i;

  file_name_in = file_name_out = NULL;
  comment = FALSE;
  pic_code = FALSE;
  ignore_fc = FALSE;

  for (i = 1; i < argc; i++)
    {
      if (*argv[i] == '-' && argv[i][1] != '\0')
	{
	  if (Check_Arg(i, "-o") || Check_Arg(i, "--output"))
	    {
	      if (++i >= argc)
		{
		  fprintf(stderr, "FILE missing after %s option\n", argv[i - 1]);
		  exit(1);
		}

	      file_name_out = argv[i];
	      continue;
	    }

	  if (Check_Arg(i, "--pic") || Check_Arg(i, "-fPIC"))
	    {
	      if (mi.can_produce_pic_code)
		pic_code = TRUE;
	      else
		fprintf(stderr, "ignored option %s - cannot produce PIC code for this architecture\n", argv[i]);
	      continue;
	    }

	  if (Check_Arg(i, "--ignore-fast"))
	    {
	      ignore_fc = TRUE;
	      continue;
	    }

	  if (Check_Arg(i, "--comment"))
	    {
	      comment = TRUE;
	      continue;
	    }

	  if (Check_Arg(i, "--version"))
	    {
	      Display_Copying("Mini-Assembly to Assembly Compiler");
	      exit(0);
	    }

	  if (Check_Arg(i, "-h") || Check_Arg(i, "--help"))
	    {
	      Display_Help();
	      exit(0);
	    }

	  fprintf(stderr, "unknown option %s - try ma2asm --help\n", argv[i]);
	  exit(1);
	}

      if (file_name_in != NULL)
	{
	  fprintf(stderr, "input file already specified (%s)\n",
		  file_name_in);
	  exit(1);
	}
      file_name_in = argv[i];
    }

  if (file_name_in != NULL && strcmp(file_name_in, "-") == 0)
    file_name_in = NULL;

  if (file_name_out == NULL && file_name_in != NULL)
    {
      strcpy(str, file_name_in);
      i = (int) strlen(str);
      if (strcmp(str + i - 3, ".ma") == 0)
	strcpy(str + i - 3, DEFAULT_OUTPUT_SUFFIX);
      else
	strcpy(str + i, DEFAULT_OUTPUT_SUFFIX);
      file_name_out = str;
    }

  if (file_name_out != NULL && strcmp(file_name_out, "-") == 0)
    file_name_out = NULL;
}

void
Display_Help(void)
#define L(msg) fprintf(stderr, "%s\n", msg)
{
  L("Usage: ma2asm [option...] file");
  L("");
  L("Options:");
  L("  -o FILE, --output FILE      set output file name");
  L("  --pic, -fPIC, --dynamic     produce position independent code (PIC)");
  L("  --ignore-fast               ignore fast call (FC) declarations");
  L("  --comment                   include comments in the output file");
  L("  -h, --help                  print this help and exit");
  L("  --version                   print version number and exit");
  L("");
  L("'-' can be given as <file> for the standard input/output");
  L("");
  L("Visit www.gprolog.org for more information.");
}

#undef L
