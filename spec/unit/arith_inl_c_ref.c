/* What the functions of arith_inl_c.c are to do. */
#include "gp_config.h"

#include <stdlib.h>
#include <string.h>
#include <math.h>

#include "engine_pl.h"
#include "bips_pl.h"

#include <float.h>
#include "macros_ref.h"
#include "wam_ref.h"

#define pl_round(x) (floor((x) + (double) 0.5))

#define MAX_INT_OK_IN_DBL ((double) ((PlLong) 1 << DBL_MANT_DIG))

#define HAS_AN_EFFECTIVE_LONG_DOUBLE

#define START_EVALUABLE_HTBL_SIZE 64

typedef struct
{
  PlLong f_n;
  int signat_atom;
  Bool is_iso;
  WamWord (FC *fct) ();
}
EvaluableInf;

extern void *evaluable_htbl;

WamWord Make_Tagged_Float(double d);

double To_Double(WamWord x_word);

WamWord Load_Math_Expression(WamWord exp_word);

#define Pl_Lookup_Evaluable(func,arity) (EvaluableInf *) Pl_HTBL_Find(evaluable_htbl, Functor_Arity(func, arity))

#define ADD_EVALUABLE(atom_str,arity,signat_str,iso,f) evaluable_info.f_n = Functor_Arity(Pl_Create_Atom(atom_str), arity); evaluable_info.signat_atom = Pl_Create_Atom(signat_str); evaluable_info.is_iso = iso; evaluable_info.fct = (WamWord (FC *)(void)) f; Pl_HTBL_Insert(evaluable_htbl, (char *) &evaluable_info, FALSE)
void Pl_Define_Math_Bip_2(WamWord func_word, WamWord arity_word);
int Pl_Classify_Double(double x);
void Check_Double_Errors(double x, Bool for_int);
double Pl_NaN(void);
void FC Pl_Math_Load_Value(WamWord start_word, WamWord *word_adr);
void FC Pl_Math_Fast_Load_Value(WamWord start_word, WamWord *word_adr);
WamWord Make_Tagged_Float(double d);
double To_Double(WamWord x_word);
WamWord Load_Math_Expression(WamWord exp_word);
Bool Pl_Arith_Evaluate_2(WamWord x_word, WamWord exp_word);
Bool Pl_Succ_2(WamWord x_word, WamWord y_word);
Bool mul_overflow(PlLong a, PlLong b, PlLong *r);
int pow_overflow(PlLong a, PlLong b, PlLong *r);
int compare_with_double(PlLong a, double b);
WamWord FC Pl_Fct_Fast_Neg(WamWord x_word);
WamWord FC Pl_Fct_Fast_Inc(WamWord x_word);
WamWord FC Pl_Fct_Fast_Dec(WamWord x_word);
WamWord FC Pl_Fct_Fast_Add(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Fast_Sub(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Fast_Mul(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Fast_Integer_Div(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Fast_Integer_Div2(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Fast_Rem(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Fast_Mod(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Fast_And(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Fast_Or(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Fast_Xor(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Fast_Not(WamWord x_word);
WamWord FC Pl_Fct_Fast_Shl(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Fast_Shr(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Fast_LSB(WamWord x_word);
WamWord FC Pl_Fct_Fast_MSB(WamWord x_word);
WamWord FC Pl_Fct_Fast_Popcount(WamWord x_word);
WamWord FC Pl_Fct_Fast_Abs(WamWord x_word);
WamWord FC Pl_Fct_Fast_Sign(WamWord x_word);
WamWord FC Pl_Fct_Fast_GCD(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Fast_IPow(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Neg(WamWord x_word);
WamWord FC Pl_Fct_Inc(WamWord x_word);
WamWord FC Pl_Fct_Dec(WamWord x_word);
WamWord FC Pl_Fct_Add(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Sub(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Mul(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Float_Div(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Integer_Div(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Integer_Div2(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Rem(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Mod(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_And(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Or(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Xor(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Not(WamWord x_word);
WamWord FC Pl_Fct_Shl(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Shr(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_LSB(WamWord x_word);
WamWord FC Pl_Fct_MSB(WamWord x_word);
WamWord FC Pl_Fct_Popcount(WamWord x_word);
WamWord FC Pl_Fct_Abs(WamWord x_word);
WamWord FC Pl_Fct_Sign(WamWord x_word);
int Compare_Numbers(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Min(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Max(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_GCD(WamWord x_word, WamWord y_word);
double Pow(double x, double y);
WamWord FC Pl_Fct_IPow(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Pow(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Sqrt(WamWord x_word);
WamWord FC Pl_Fct_Tan(WamWord x_word);
WamWord FC Pl_Fct_Atan(WamWord x_word);
WamWord FC Pl_Fct_Atan2(WamWord x_word, WamWord y_word);
WamWord FC Pl_Fct_Cos(WamWord x_word);
WamWord FC Pl_Fct_Acos(WamWord x_word);
WamWord FC Pl_Fct_Sin(WamWord x_word);
WamWord FC Pl_Fct_Asin(WamWord x_word);
WamWord FC Pl_Fct_Tanh(WamWord x_word);
WamWord FC Pl_Fct_Atanh(WamWord x_word);
WamWord FC Pl_Fct_Cosh(WamWord x_word);
WamWord FC Pl_Fct_Acosh(WamWord x_word);
WamWord FC Pl_Fct_Sinh(WamWord x_word);
WamWord FC Pl_Fct_Asinh(WamWord x_word);
WamWord FC Pl_Fct_Exp(WamWord x_word);
WamWord FC Pl_Fct_Log(WamWord x_word);
WamWord FC Pl_Fct_Log10(WamWord x_word);
WamWord FC Pl_Fct_Log_Radix(WamWord b_word, WamWord x_word);
WamWord FC Pl_Fct_Float(WamWord x_word);
WamWord FC Pl_Fct_Ceiling(WamWord x_word);
WamWord FC Pl_Fct_Floor(WamWord x_word);
WamWord FC Pl_Fct_Round(WamWord x_word);
WamWord FC Pl_Fct_Truncate(WamWord x_word);
WamWord FC Pl_Fct_Float_Fract_Part(WamWord x_word);
WamWord FC Pl_Fct_Float_Integer_Part(WamWord x_word);
WamWord FC Pl_Fct_PI(void);
WamWord FC Pl_Fct_E(void);
WamWord FC Pl_Fct_Epsilon(void);
WamWord FC Pl_Fct_Identity(WamWord x_word);
Bool FC Pl_Blt_Fast_Eq(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_Fast_Neq(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_Fast_Lt(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_Fast_Lte(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_Fast_Gt(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_Fast_Gte(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_Eq(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_Neq(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_Lt(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_Lte(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_Gt(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_Gte(WamWord x_word, WamWord y_word);
Bool Pl_Current_Evaluable_1(WamWord func_indic_word);
Bool Pl_Current_Evaluable_Alt_0(void);
Bool Pl_Evaluable_Prop_Built_In_2(WamWord func_word, WamWord arity_word);
Bool Pl_Evaluable_Prop_Static_2(WamWord func_word, WamWord arity_word);
Bool Pl_Evaluable_Prop_ISO_2(WamWord func_word, WamWord arity_word);
Bool Pl_Evaluable_Prop_Signature_3(WamWord func_word, WamWord arity_word, WamWord signature_word);


void ref_Arith_Initializer(void)
{
  EvaluableInf evaluable_info;

  evaluable_htbl = Pl_HTBL_Alloc_Table(START_EVALUABLE_HTBL_SIZE,
				       sizeof(EvaluableInf));

  ADD_EVALUABLE("pi",                    0, "=F",       TRUE,  Pl_Fct_PI);
  ADD_EVALUABLE("e",                     0, "=F",       FALSE, Pl_Fct_E);
  ADD_EVALUABLE("epsilon",               0, "=F",       FALSE, Pl_Fct_Epsilon);
  ADD_EVALUABLE("+",                     1, "IF=IF",    TRUE,  Pl_Fct_Identity);
  ADD_EVALUABLE("-",                     1, "IF=IF",    TRUE,  Pl_Fct_Neg);
  ADD_EVALUABLE("inc",                   1, "IF=IF",    FALSE, Pl_Fct_Inc);
  ADD_EVALUABLE("dec",                   1, "IF=IF",    FALSE, Pl_Fct_Dec);
  ADD_EVALUABLE("+",                     2, "IF,IF=IF", TRUE,  Pl_Fct_Add);
  ADD_EVALUABLE("-",                     2, "IF,IF=IF", TRUE,  Pl_Fct_Sub);
  ADD_EVALUABLE("*",                     2, "IF,IF=IF", TRUE,  Pl_Fct_Mul);
  ADD_EVALUABLE("/",                     2, "IF,IF=F",  TRUE,  Pl_Fct_Float_Div);
  ADD_EVALUABLE("//",                    2, "I,I=I",    TRUE,  Pl_Fct_Integer_Div);
  ADD_EVALUABLE("div",                   2, "I,I=I",    TRUE,  Pl_Fct_Integer_Div2);
  ADD_EVALUABLE("rem",                   2, "I,I=I",    TRUE,  Pl_Fct_Rem);
  ADD_EVALUABLE("mod",                   2, "I,I=I",    TRUE,  Pl_Fct_Mod);
  ADD_EVALUABLE("/\\",                   2, "I,I=I",    TRUE,  Pl_Fct_And);
  ADD_EVALUABLE("\\/",                   2, "I,I=I",    TRUE,  Pl_Fct_Or);
  ADD_EVALUABLE("xor",                   2, "I,I=I",    TRUE,  Pl_Fct_Xor);
  ADD_EVALUABLE("\\",                    1, "I=I",      TRUE,  Pl_Fct_Not);
  ADD_EVALUABLE("<<",                    2, "I,I=I",    TRUE,  Pl_Fct_Shl);
  ADD_EVALUABLE(">>",                    2, "I,I=I",    TRUE,  Pl_Fct_Shr);
  ADD_EVALUABLE("lsb",                   1, "I=I",      FALSE, Pl_Fct_LSB);
  ADD_EVALUABLE("msb",                   1, "I=I",      FALSE, Pl_Fct_MSB);
  ADD_EVALUABLE("popcount",              1, "I=I",      FALSE, Pl_Fct_Popcount);
  ADD_EVALUABLE("abs",                   1, "IF=IF",    TRUE,  Pl_Fct_Abs);
  ADD_EVALUABLE("sign",                  1, "IF=IF",    TRUE,  Pl_Fct_Sign);
  ADD_EVALUABLE("min",                   2, "IF,IF=?",  TRUE,  Pl_Fct_Min);
  ADD_EVALUABLE("max",                   2, "IF,IF=?",  TRUE,  Pl_Fct_Max);
  ADD_EVALUABLE("gcd",                   2, "I,I=I",    FALSE, Pl_Fct_GCD);
  ADD_EVALUABLE("^",                     2, "IF,IF=IF", TRUE,  Pl_Fct_IPow);
  ADD_EVALUABLE("**",                    2, "IF,IF=F",  TRUE,  Pl_Fct_Pow);
  ADD_EVALUABLE("sqrt",                  1, "IF=F",     TRUE,  Pl_Fct_Sqrt);
  ADD_EVALUABLE("tan",                   1, "IF=F",     TRUE,  Pl_Fct_Tan);
  ADD_EVALUABLE("atan",                  1, "IF=F",     TRUE,  Pl_Fct_Atan);
  ADD_EVALUABLE("atan2",                 2, "IF,IF=F",  TRUE,  Pl_Fct_Atan2);
  ADD_EVALUABLE("cos",                   1, "IF=F",     TRUE,  Pl_Fct_Cos);
  ADD_EVALUABLE("acos",                  1, "IF=F",     TRUE,  Pl_Fct_Acos);
  ADD_EVALUABLE("sin",                   1, "IF=F",     TRUE,  Pl_Fct_Sin);
  ADD_EVALUABLE("asin",                  1, "IF=F",     TRUE,  Pl_Fct_Asin);
  ADD_EVALUABLE("tanh",                  1, "IF=F",     TRUE,  Pl_Fct_Tanh);
  ADD_EVALUABLE("atanh",                 1, "IF=F",     FALSE, Pl_Fct_Atanh);
  ADD_EVALUABLE("cosh",                  1, "IF=F",     FALSE, Pl_Fct_Cosh);
  ADD_EVALUABLE("acosh",                 1, "IF=F",     FALSE, Pl_Fct_Acosh);
  ADD_EVALUABLE("sinh",                  1, "IF=F",     FALSE, Pl_Fct_Sinh);
  ADD_EVALUABLE("asinh",                 1, "IF=F",     FALSE, Pl_Fct_Asinh);
  ADD_EVALUABLE("exp",                   1, "IF=F",     TRUE,  Pl_Fct_Exp);
  ADD_EVALUABLE("log",                   1, "IF=F",     TRUE,  Pl_Fct_Log);
  ADD_EVALUABLE("log10",                 1, "IF=F",     FALSE, Pl_Fct_Log10);
  ADD_EVALUABLE("log",                   2, "IF,IF=F",  FALSE, Pl_Fct_Log_Radix);
  ADD_EVALUABLE("float",                 1, "IF=F",     TRUE,  Pl_Fct_Float);
  ADD_EVALUABLE("ceiling",               1, "F=I",      TRUE,  Pl_Fct_Ceiling);
  ADD_EVALUABLE("floor",                 1, "F=I",      TRUE,  Pl_Fct_Floor);
  ADD_EVALUABLE("round",                 1, "F=I",      TRUE,  Pl_Fct_Round);
  ADD_EVALUABLE("truncate",              1, "F=I",      TRUE,  Pl_Fct_Truncate);
  ADD_EVALUABLE("float_fractional_part", 1, "F=F",      TRUE,  Pl_Fct_Float_Fract_Part);
  ADD_EVALUABLE("float_integer_part",    1, "F=F",      TRUE,  Pl_Fct_Float_Integer_Part);
}

void ref_Pl_Define_Math_Bip_2(WamWord func_word, WamWord arity_word)
{
  char *cur_bip_func;
  int cur_bip_arity;

  cur_bip_func = Pl_Rd_String_Check(func_word);
  cur_bip_arity = (int) Pl_Rd_Integer_Check(arity_word);
  Pl_Set_C_Bip_Name(cur_bip_func, cur_bip_arity);
}

int ref_Pl_Classify_Double(double x)
{

  switch(fpclassify(x))
    {
    case FP_NAN:
      return PL_FP_NAN;
    case FP_INFINITE:
      return PL_FP_INFINITE;
    case FP_SUBNORMAL:
      return PL_FP_SUBNORMAL;
    }
  return PL_FP_NORMAL;
}

void ref_Check_Double_Errors(double x, Bool for_int)
{
  switch(Pl_Classify_Double(x))
    {
    case PL_FP_NAN:
      Pl_Err_Evaluation(pl_evaluation_undefined);
      break;

    case PL_FP_INFINITE:
      if (for_int)
	Pl_Err_Evaluation(pl_evaluation_int_overflow);
      else
	Pl_Err_Evaluation(pl_evaluation_float_overflow);
      break;

    }
}

double ref_Pl_NaN(void)
{

  return NAN;

}

void FC ref_Pl_Math_Load_Value(WamWord start_word, WamWord *word_adr)
{
  WamWord word, tag_mask;

  DEREF(start_word, word, tag_mask);

  if (tag_mask != TAG_INT_MASK && tag_mask != TAG_FLT_MASK)
    word = Load_Math_Expression(word);

  *word_adr = word;
}

void FC ref_Pl_Math_Fast_Load_Value(WamWord start_word, WamWord *word_adr)
{
  WamWord word, tag_mask;

  DEREF(start_word, word, tag_mask);
  *word_adr = word;
}

WamWord ref_Make_Tagged_Float(double d)
{
  WamWord x_word;

  Check_Double_Errors(d, FALSE);

  x_word = Tag_FLT(H);

  Pl_Global_Push_Float(d);

  return x_word;
}

double ref_To_Double(WamWord x_word)
{
  return (Tag_Is_INT(x_word)) ? (double) (UnTag_INT(x_word)) :
    Pl_Obtain_Float(UnTag_FLT(x_word));
}

WamWord ref_Load_Math_Expression(WamWord exp_word)
{
  WamWord word, tag_mask;
  WamWord *adr = NULL;
  WamWord *lst_adr;
  int func, arity;
  EvaluableInf *evaluable;

  DEREF(exp_word, word, tag_mask);

  if (tag_mask == TAG_INT_MASK || tag_mask == TAG_FLT_MASK)
    return word;

  func = arity = 0;

  if (tag_mask == TAG_STC_MASK)
    {
      adr = UnTag_STC(word);
      func = Functor(adr);
      arity = Arity(adr);
    }
  else if (tag_mask == TAG_ATM_MASK)
    {
      func = UnTag_ATM(word);
      arity = 0;
    }
  else if (tag_mask == TAG_LST_MASK)
    {
      lst_adr = UnTag_LST(word);
      DEREF(Cdr(lst_adr), word, tag_mask);
      if (word != NIL_WORD)
	{
	  word = Pl_Put_Structure(ATOM_CHAR('/'), 2);
	  Pl_Unify_Atom(ATOM_CHAR('.'));
	  Pl_Unify_Integer(2);
	  Pl_Err_Type(pl_type_evaluable, word);
	}
      DEREF(Car(lst_adr), word, tag_mask);
      if (tag_mask == TAG_REF_MASK)
	Pl_Err_Instantiation();

      if (tag_mask != TAG_INT_MASK)
	{
	  Pl_Err_Type(pl_type_integer, word);
	}
      return word;
    }
  else if (tag_mask == TAG_REF_MASK)
    Pl_Err_Instantiation();
  else
    Pl_Err_Type(pl_type_evaluable, word);

  evaluable = Pl_Lookup_Evaluable(func, arity);
  if (evaluable == NULL)
    {
      word = Pl_Put_Structure(ATOM_CHAR('/'), 2);
      Pl_Unify_Atom(func);
      Pl_Unify_Integer(arity);
      Pl_Err_Type(pl_type_evaluable, word);
    }

#define CALL_MATH_FCT_0(x) (* (WamWord (FC *)()) (evaluable->fct)) ()
#define CALL_MATH_FCT_1(x) (* (WamWord (FC *)(WamWord)) (evaluable->fct)) (x)
#define CALL_MATH_FCT_2(x,y) (* (WamWord (FC *)(WamWord, WamWord)) (evaluable->fct)) (x, y)

  if (arity == 2)
    return CALL_MATH_FCT_2(Load_Math_Expression(Arg(adr, 0)), Load_Math_Expression(Arg(adr, 1)));

  if (arity == 1)
    return CALL_MATH_FCT_1(Load_Math_Expression(Arg(adr, 0)));

  return CALL_MATH_FCT_0(Load_Math_Expression());
}

Bool ref_Pl_Arith_Evaluate_2(WamWord x_word, WamWord exp_word)
{
  return Pl_Unify(x_word, Load_Math_Expression(exp_word));
}

Bool ref_Pl_Succ_2(WamWord x_word, WamWord y_word)
{
  WamWord word, tag_mask;
  PlLong x, y;

  DEREF(x_word, word, tag_mask);
  if (tag_mask != TAG_REF_MASK)
    {
      x = Pl_Rd_Positive_Check(x_word);

      DEREF(y_word, word, tag_mask);
      if (tag_mask == TAG_INT_MASK)
	{
	  y = UnTag_INT(word);
	  if (y < 0)
	    Pl_Err_Domain(pl_domain_not_less_than_zero, word);
	}
      else if (tag_mask == TAG_REF_MASK)
	{
	  if (x == INT_GREATEST_VALUE)
	    Pl_Err_Evaluation(pl_evaluation_int_overflow);
	}
      else
	Pl_Err_Type(pl_type_integer, y_word);

      return Pl_Get_Integer(x + 1, y_word);
    }

  Pl_Check_For_Un_Positive(word);
  x = Pl_Rd_Positive_Check(y_word) - 1;
  return x >= 0 && Pl_Get_Integer(x, word);
}

Bool ref_mul_overflow(PlLong a, PlLong b, PlLong *r)
{

  return __builtin_mul_overflow(a, b, r);

}

int ref_pow_overflow(PlLong a, PlLong b, PlLong *r)
{
  if (a == 1)
    {
      *r = 1;
      return 0;
    }

  if (a == -1)
    {
      *r = 1 - ((b & 1) << 1);
      return 0;
    }

  if (a == 0)
    {
      if (b >= 0)
	{
	  *r = (b == 0);
	  return 0;
	}
      return 2;
    }

  if (b < 0)
    return 3;

  *r = 1;
  for(;;)
    {
      if ((b & 1) && mul_overflow(*r, a, r))
	return 1;
      b >>= 1;
      if (!b)
	break;
      if (mul_overflow(a, a, &a))
	return 1;
    }

  return 0;
}

#define CMP_SAME_TYPE(a,b) ((a) < (b) ? -1 : (a) != (b))

int ref_compare_with_double(PlLong a, double b)
{

  long double lda = (long double) a;
  long double ldb = (long double) b;
  return CMP_SAME_TYPE(lda, ldb);

  double da = (double) a;
  return CMP_SAME_TYPE(da, b);
}

#define C_Neg(x) (- (x))

#define C_Add(x,y) ((x) + (y))

#define C_Sub(x,y) ((x) - (y))

#define C_Mul(x,y) ((x) * (y))

#define C_Div(x,y) ((y) != 0 ? (x) / (y) : (Pl_Err_Evaluation(pl_evaluation_zero_divisor), 0))

#define Identity(x) (x)

#define DInc(x) ((x) + 1)

#define DDec(x) ((x) - 1)

#define DSign(x) ((x) < 0.0 ? -1.0 : (x) > 0.0 ? 1.0 : 0.0)

#define DInteg(x) (((x) > 0) ? floor(x) : ceil(x))

#define DFract(x) ((x) - DInteg(x))

#define Log_Radix(b,x) (log(x) / log(b))

#define X_and_Y_are_INT(x_word,y_word) Tag_Is_INT(x_word & y_word)

#define IFxIFtoIF(x_word,y_word,c_op,fast_op) return (X_and_Y_are_INT(x_word, y_word)) ? fast_op(x_word, y_word) : Make_Tagged_Float(c_op(To_Double(x_word), To_Double(y_word)))

#define IFxIFtoF(x_word,y_word,c_op) return Make_Tagged_Float(c_op(To_Double(x_word), To_Double(y_word)))

#define IFxIFtoF_chk(x_word,y_word,c_op,chk_code) double x = To_Double(x_word); double y = To_Double(y_word); chk_code; double z = c_op(x, y); return Make_Tagged_Float(z)

#define IxItoI(x_word,y_word,fast_op) if (Tag_Is_FLT(x_word)) Pl_Err_Type(pl_type_integer, x_word); if (Tag_Is_FLT(y_word)) Pl_Err_Type(pl_type_integer, y_word); return fast_op(x_word, y_word)

#define IFtoIF(x_word,c_op,fast_op) return (Tag_Is_INT(x_word)) ? fast_op(x_word) : Make_Tagged_Float(c_op(To_Double(x_word)))

#define ItoI(x_word,fast_op) if (Tag_Is_FLT(x_word)) Pl_Err_Type(pl_type_integer, x_word); return fast_op(x_word)

#define IFtoF(x_word,c_op) return Make_Tagged_Float(c_op(To_Double(x_word)))

#define IFtoF_chk(x_word,c_op,chk_code) double x = To_Double(x_word); chk_code; double y = c_op(x); return Make_Tagged_Float(y)

#define FtoI(x_word,c_op) double x, y; PlLong ly; if (Tag_Is_INT(x_word)) { if (Flag_Value(strict_iso)) Pl_Err_Type(pl_type_float, x_word); return x_word; } x = Pl_Obtain_Float(UnTag_FLT(x_word)); y = c_op(x); ly = (PlLong) y; if ((double) ly != y || TEST_INT_OVERFLOW(ly)) Pl_Err_Evaluation(pl_evaluation_int_overflow); return Tag_INT(ly)

#define FtoF(x_word,c_op) double d; if (Tag_Is_INT(x_word)) { Pl_Err_Type(pl_type_float, x_word); return x_word; } else d = Pl_Obtain_Float(UnTag_FLT(x_word)); return Make_Tagged_Float(c_op(d))

WamWord FC ref_Pl_Fct_Fast_Neg(WamWord x_word)
{
  PlLong x = UnTag_INT(x_word);
  if (x == INT_LOWEST_VALUE)
    Pl_Err_Evaluation(pl_evaluation_int_overflow);
  return Tag_INT(-x);
}

WamWord FC ref_Pl_Fct_Fast_Inc(WamWord x_word)
{
  PlLong x = UnTag_INT(x_word);
  if (x == INT_GREATEST_VALUE)
    Pl_Err_Evaluation(pl_evaluation_int_overflow);
  return Tag_INT(x + 1);
}

WamWord FC ref_Pl_Fct_Fast_Dec(WamWord x_word)
{
  PlLong x = UnTag_INT(x_word);
  if (x == INT_LOWEST_VALUE)
    Pl_Err_Evaluation(pl_evaluation_int_overflow);
  return Tag_INT(x - 1);
}

WamWord FC ref_Pl_Fct_Fast_Add(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);
  PlLong z = x + y;
  if (TEST_INT_OVERFLOW(z))
    Pl_Err_Evaluation(pl_evaluation_int_overflow);
  return Tag_INT(z);
}

WamWord FC ref_Pl_Fct_Fast_Sub(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);
  PlLong z = x - y;
  if (TEST_INT_OVERFLOW(z))
    Pl_Err_Evaluation(pl_evaluation_int_overflow);
  return Tag_INT(z);
}

WamWord FC ref_Pl_Fct_Fast_Mul(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);
  PlLong z;
  if (mul_overflow(x, y, &z) || TEST_INT_OVERFLOW(z))
    Pl_Err_Evaluation(pl_evaluation_int_overflow);
  return Tag_INT(z);
}

WamWord FC ref_Pl_Fct_Fast_Integer_Div(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);

  if (y == 0)
    Pl_Err_Evaluation(pl_evaluation_zero_divisor);

  if (x == INT_LOWEST_VALUE && y == -1)
    Pl_Err_Evaluation(pl_evaluation_int_overflow);

  return Tag_INT(x / y);
}

WamWord FC ref_Pl_Fct_Fast_Integer_Div2(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);
  PlLong m;

  if (y == 0)
    Pl_Err_Evaluation(pl_evaluation_zero_divisor);

  if (x == INT_LOWEST_VALUE && y == -1)
    Pl_Err_Evaluation(pl_evaluation_int_overflow);

  m = x % y;

  if (m != 0 && (m ^ y) < 0)
    m += y;

  m = (x - m) / y;

  return Tag_INT(m);
}

WamWord FC ref_Pl_Fct_Fast_Rem(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);

  if (y == 0)
    Pl_Err_Evaluation(pl_evaluation_zero_divisor);

  return Tag_INT(x % y);
}

WamWord FC ref_Pl_Fct_Fast_Mod(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);
  PlLong m;

  if (y == 0)
    Pl_Err_Evaluation(pl_evaluation_zero_divisor);

  m = x % y;

  if (m != 0 && (m ^ y) < 0)
    m += y;

  return Tag_INT(m);
}

WamWord FC ref_Pl_Fct_Fast_And(WamWord x_word, WamWord y_word)
{
  return x_word & y_word;
}

WamWord FC ref_Pl_Fct_Fast_Or(WamWord x_word, WamWord y_word)
{
  return x_word | y_word;
}

WamWord FC ref_Pl_Fct_Fast_Xor(WamWord x_word, WamWord y_word)
{
  return (x_word ^ y_word) | TAG_INT_MASK;
}

WamWord FC ref_Pl_Fct_Fast_Not(WamWord x_word)
{
  PlLong x = UnTag_INT(x_word);
  return Tag_INT(~x);
}

WamWord FC ref_Pl_Fct_Fast_Shl(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);
  PlLong z;

  if (y < 0)
    {
      if (y == INT_LOWEST_VALUE)
	return Tag_INT((x >= 0) ? 0 : -1);
      return Pl_Fct_Fast_Shr(x_word, Tag_INT(-y));
    }

  if (y >= VALUE_SIZE)
    {
      if (x)
	Pl_Err_Evaluation(pl_evaluation_int_overflow);
      z = 0;
    }
  else
    {
      if (x > (INT_GREATEST_VALUE >> y) || x < (INT_LOWEST_VALUE >> y))
	Pl_Err_Evaluation(pl_evaluation_int_overflow);
      z = x << y;
    }

  return Tag_INT(z);
}

WamWord FC ref_Pl_Fct_Fast_Shr(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);
  PlLong z;

  if (y < 0)
    {
      if (y == INT_LOWEST_VALUE)
	{
	  if (x == 0)
	    return x_word;
	  Pl_Err_Evaluation(pl_evaluation_int_overflow);
	}
      return Pl_Fct_Fast_Shl(x_word, Tag_INT(-y));
    }

  z = (y >= WORD_SIZE) ? ((x >= 0) ? 0 : -1) : (x >> y);

  return Tag_INT(z);
}

WamWord FC ref_Pl_Fct_Fast_LSB(WamWord x_word)
{
  PlLong x = UnTag_INT(x_word);
  if (x < 0)
    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
  return Tag_INT((x == 0) ? -1 : Pl_Least_Significant_Bit(x));
}

WamWord FC ref_Pl_Fct_Fast_MSB(WamWord x_word)
{
  PlLong x = UnTag_INT(x_word);
  if (x < 0)
    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
  return Tag_INT((x == 0) ? -1 : Pl_Most_Significant_Bit(x));
}

WamWord FC ref_Pl_Fct_Fast_Popcount(WamWord x_word)
{
  PlLong x = UnTag_INT(x_word);
  if (x < 0)
    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
  return Tag_INT(Pl_Count_Set_Bits(x));
}

WamWord FC ref_Pl_Fct_Fast_Abs(WamWord x_word)
{
  PlLong x = UnTag_INT(x_word);
  if (x == INT_LOWEST_VALUE)
    Pl_Err_Evaluation(pl_evaluation_int_overflow);
  return (x < 0) ? Tag_INT(-x) : x_word;
}

WamWord FC ref_Pl_Fct_Fast_Sign(WamWord x_word)
{
  PlLong x = UnTag_INT(x_word);
  return (x < 0) ? Tag_INT(-1) : (x == 0) ? Tag_INT(0) : Tag_INT(1);
}

WamWord FC ref_Pl_Fct_Fast_GCD(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);

  if ((x == INT_LOWEST_VALUE && (y == 0 || y == INT_LOWEST_VALUE)) ||
      (x == 0 && y == INT_LOWEST_VALUE))
    Pl_Err_Evaluation(pl_evaluation_int_overflow);

  if (x < 0)
    x = -x;

  if (y < 0)
    y = -y;

  while(y != 0)
    {
      PlLong r = x % y;
      x = y;
      y = r;
    }
  return Tag_INT(x);
}

WamWord FC ref_Pl_Fct_Fast_IPow(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);
  PlLong z = 0;
  int s = pow_overflow(x, y, &z);

  if (s == 2)
    Pl_Err_Evaluation(pl_evaluation_undefined);

  if (s == 3)
    Pl_Err_Type(pl_type_float, x_word);

  if (s || TEST_INT_OVERFLOW(z))
    Pl_Err_Evaluation(pl_evaluation_int_overflow);

  return Tag_INT(z);
}

WamWord FC ref_Pl_Fct_Neg(WamWord x_word)
{
  IFtoIF(x_word, C_Neg, Pl_Fct_Fast_Neg);
}

WamWord FC ref_Pl_Fct_Inc(WamWord x_word)
{
  IFtoIF(x_word, DInc, Pl_Fct_Fast_Inc);
}

WamWord FC ref_Pl_Fct_Dec(WamWord x_word)
{
  IFtoIF(x_word, DDec, Pl_Fct_Fast_Dec);
}

WamWord FC ref_Pl_Fct_Add(WamWord x_word, WamWord y_word)
{
  IFxIFtoIF(x_word, y_word, C_Add, Pl_Fct_Fast_Add);
}

WamWord FC ref_Pl_Fct_Sub(WamWord x_word, WamWord y_word)
{
  IFxIFtoIF(x_word, y_word, C_Sub, Pl_Fct_Fast_Sub);
}

WamWord FC ref_Pl_Fct_Mul(WamWord x_word, WamWord y_word)
{
  IFxIFtoIF(x_word, y_word, C_Mul, Pl_Fct_Fast_Mul);
}

WamWord FC ref_Pl_Fct_Float_Div(WamWord x_word, WamWord y_word)
{
  IFxIFtoF(x_word, y_word, C_Div);
}

WamWord FC ref_Pl_Fct_Integer_Div(WamWord x_word, WamWord y_word)
{
  IxItoI(x_word, y_word, Pl_Fct_Fast_Integer_Div);
}

WamWord FC ref_Pl_Fct_Integer_Div2(WamWord x_word, WamWord y_word)
{
  IxItoI(x_word, y_word, Pl_Fct_Fast_Integer_Div2);
}

WamWord FC ref_Pl_Fct_Rem(WamWord x_word, WamWord y_word)
{
  IxItoI(x_word, y_word, Pl_Fct_Fast_Rem);
}

WamWord FC ref_Pl_Fct_Mod(WamWord x_word, WamWord y_word)
{
  IxItoI(x_word, y_word, Pl_Fct_Fast_Mod);
}

WamWord FC ref_Pl_Fct_And(WamWord x_word, WamWord y_word)
{
  IxItoI(x_word, y_word, Pl_Fct_Fast_And);
}

WamWord FC ref_Pl_Fct_Or(WamWord x_word, WamWord y_word)
{
  IxItoI(x_word, y_word, Pl_Fct_Fast_Or);
}

WamWord FC ref_Pl_Fct_Xor(WamWord x_word, WamWord y_word)
{
  IxItoI(x_word, y_word, Pl_Fct_Fast_Xor);
}

WamWord FC ref_Pl_Fct_Not(WamWord x_word)
{
  ItoI(x_word, Pl_Fct_Fast_Not);
}

WamWord FC ref_Pl_Fct_Shl(WamWord x_word, WamWord y_word)
{
  IxItoI(x_word, y_word, Pl_Fct_Fast_Shl);
}

WamWord FC ref_Pl_Fct_Shr(WamWord x_word, WamWord y_word)
{
  IxItoI(x_word, y_word, Pl_Fct_Fast_Shr);
}

WamWord FC ref_Pl_Fct_LSB(WamWord x_word)
{
  ItoI(x_word, Pl_Fct_Fast_LSB);
}

WamWord FC ref_Pl_Fct_MSB(WamWord x_word)
{
  ItoI(x_word, Pl_Fct_Fast_MSB);
}

WamWord FC ref_Pl_Fct_Popcount(WamWord x_word)
{
  ItoI(x_word, Pl_Fct_Fast_Popcount);
}

WamWord FC ref_Pl_Fct_Abs(WamWord x_word)
{
  IFtoIF(x_word, fabs, Pl_Fct_Fast_Abs);
}

WamWord FC ref_Pl_Fct_Sign(WamWord x_word)
{
  IFtoIF(x_word, DSign, Pl_Fct_Fast_Sign);
}

int ref_Compare_Numbers(WamWord x_word, WamWord y_word)
{
  Bool x_is_int, y_is_int;
  PlLong x_int = 0, y_int = 0;
  double x_flt = 0, y_flt = 0;

  if ((x_is_int = Tag_Is_INT(x_word)))
    x_int = UnTag_INT(x_word);
  else
    x_flt = Pl_Obtain_Float(UnTag_FLT(x_word));

  if ((y_is_int = Tag_Is_INT(y_word)))
    y_int = UnTag_INT(y_word);
  else
    y_flt = Pl_Obtain_Float(UnTag_FLT(y_word));

  if (x_is_int)
    {
      if (y_is_int)
	return CMP_SAME_TYPE(x_int, y_int);
      else
	return compare_with_double(x_int, y_flt);
    }
  else if (y_is_int)
    return -compare_with_double(y_int, x_flt);
  else
    return CMP_SAME_TYPE(x_flt, y_flt);
}

WamWord FC ref_Pl_Fct_Min(WamWord x_word, WamWord y_word)
{
  int cmp = Compare_Numbers(x_word, y_word);

  if (cmp < 0)
    return x_word;

  if (cmp > 0)
    return y_word;

  return Tag_Is_FLT(x_word) ? x_word : y_word;
}

WamWord FC ref_Pl_Fct_Max(WamWord x_word, WamWord y_word)
{
  int cmp = Compare_Numbers(x_word, y_word);

  if (cmp > 0)
    return x_word;

  if (cmp < 0)
    return y_word;

  return Tag_Is_FLT(x_word) ? x_word : y_word;
}

WamWord FC ref_Pl_Fct_GCD(WamWord x_word, WamWord y_word)
{
  IxItoI(x_word, y_word, Pl_Fct_Fast_GCD);
}

double ref_Pow(double x, double y)
{
  if (x == 0.0 && y < 0.0)
    Pl_Err_Evaluation(pl_evaluation_undefined);

  if (x == 1.0)
    return x;

  return pow(x, y);
}

WamWord FC ref_Pl_Fct_IPow(WamWord x_word, WamWord y_word)
{
  IFxIFtoIF(x_word, y_word, Pow, Pl_Fct_Fast_IPow);
}

WamWord FC ref_Pl_Fct_Pow(WamWord x_word, WamWord y_word)
{
  IFxIFtoF(x_word, y_word, Pow);
}

WamWord FC ref_Pl_Fct_Sqrt(WamWord x_word)
{
  IFtoF(x_word, sqrt);
}

WamWord FC ref_Pl_Fct_Tan(WamWord x_word)
{
  IFtoF(x_word, tan);
}

WamWord FC ref_Pl_Fct_Atan(WamWord x_word)
{
  IFtoF(x_word, atan);
}

WamWord FC ref_Pl_Fct_Atan2(WamWord x_word, WamWord y_word)
{
  IFxIFtoF_chk(x_word, y_word, atan2,
	       if (x == 0.0 && y == 0.0) Pl_Err_Evaluation(pl_evaluation_undefined));
}

WamWord FC ref_Pl_Fct_Cos(WamWord x_word)
{
  IFtoF(x_word, cos);
}

WamWord FC ref_Pl_Fct_Acos(WamWord x_word)
{
  IFtoF(x_word, acos);
}

WamWord FC ref_Pl_Fct_Sin(WamWord x_word)
{
  IFtoF(x_word, sin);
}

WamWord FC ref_Pl_Fct_Asin(WamWord x_word)
{
  IFtoF(x_word, asin);
}

WamWord FC ref_Pl_Fct_Tanh(WamWord x_word)
{
  IFtoF(x_word, tanh);
}

WamWord FC ref_Pl_Fct_Atanh(WamWord x_word)
{

  IFtoF_chk(x_word, atanh,
	    if (x <= -1.0 || x >= 1.0) Pl_Err_Evaluation(pl_evaluation_undefined));

}

WamWord FC ref_Pl_Fct_Cosh(WamWord x_word)
{
  IFtoF(x_word, cosh);
}

WamWord FC ref_Pl_Fct_Acosh(WamWord x_word)
{

  IFtoF(x_word, acosh);

}

WamWord FC ref_Pl_Fct_Sinh(WamWord x_word)
{
  IFtoF(x_word, sinh);
}

WamWord FC ref_Pl_Fct_Asinh(WamWord x_word)
{

  IFtoF(x_word, asinh);

}

WamWord FC ref_Pl_Fct_Exp(WamWord x_word)
{
  IFtoF(x_word, exp);
}

WamWord FC ref_Pl_Fct_Log(WamWord x_word)
{
  IFtoF_chk(x_word, log,
	    if (x <= 0) Pl_Err_Evaluation(pl_evaluation_undefined));
}

WamWord FC ref_Pl_Fct_Log10(WamWord x_word)
{
  IFtoF_chk(x_word, log10,
	    if (x <= 0) Pl_Err_Evaluation(pl_evaluation_undefined));
}

WamWord FC ref_Pl_Fct_Log_Radix(WamWord b_word, WamWord x_word)
{
  IFxIFtoF_chk(b_word, x_word, Log_Radix,
	   if (x <= 0 || y <= 0) Pl_Err_Evaluation(pl_evaluation_undefined));
}

WamWord FC ref_Pl_Fct_Float(WamWord x_word)
{
  IFtoF(x_word, Identity);
}

WamWord FC ref_Pl_Fct_Ceiling(WamWord x_word)
{
  FtoI(x_word, ceil);
}

WamWord FC ref_Pl_Fct_Floor(WamWord x_word)
{
  FtoI(x_word, floor);
}

WamWord FC ref_Pl_Fct_Round(WamWord x_word)
{
  FtoI(x_word, pl_round);
}

WamWord FC ref_Pl_Fct_Truncate(WamWord x_word)
{
  FtoI(x_word, trunc);
}

WamWord FC ref_Pl_Fct_Float_Fract_Part(WamWord x_word)
{
  FtoF(x_word, DFract);
}

WamWord FC ref_Pl_Fct_Float_Integer_Part(WamWord x_word)
{
  FtoF(x_word, DInteg);
}

WamWord FC ref_Pl_Fct_PI(void)
{
  return Make_Tagged_Float(M_PI);
}

WamWord FC ref_Pl_Fct_E(void)
{
  return Make_Tagged_Float(M_E);
}

WamWord FC ref_Pl_Fct_Epsilon(void)
{
  return Make_Tagged_Float(DBL_EPSILON);
}

WamWord FC ref_Pl_Fct_Identity(WamWord x_word)
{
  return x_word;
}

#define Cmp_IFxIF(x_word,y_word,c_op,fast_op) return (X_and_Y_are_INT(x_word, y_word)) ? fast_op(x_word, y_word) : (To_Double(x_word) c_op To_Double(y_word))

Bool FC ref_Pl_Blt_Fast_Eq(WamWord x_word, WamWord y_word)
{
  return x_word == y_word;
}

Bool FC ref_Pl_Blt_Fast_Neq(WamWord x_word, WamWord y_word)
{
  return x_word != y_word;
}

Bool FC ref_Pl_Blt_Fast_Lt(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);
  return x < y;
}

Bool FC ref_Pl_Blt_Fast_Lte(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);
  return x <= y;
}

Bool FC ref_Pl_Blt_Fast_Gt(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);
  return x > y;
}

Bool FC ref_Pl_Blt_Fast_Gte(WamWord x_word, WamWord y_word)
{
  PlLong x = UnTag_INT(x_word);
  PlLong y = UnTag_INT(y_word);
  return x >= y;
}

Bool FC ref_Pl_Blt_Eq(WamWord x_word, WamWord y_word)
{
  Cmp_IFxIF(x_word, y_word, ==, Pl_Blt_Fast_Eq);
}

Bool FC ref_Pl_Blt_Neq(WamWord x_word, WamWord y_word)
{
  Cmp_IFxIF(x_word, y_word, !=, Pl_Blt_Fast_Neq);
}

Bool FC ref_Pl_Blt_Lt(WamWord x_word, WamWord y_word)
{
  Cmp_IFxIF(x_word, y_word, <, Pl_Blt_Fast_Lt);
}

Bool FC ref_Pl_Blt_Lte(WamWord x_word, WamWord y_word)
{
  Cmp_IFxIF(x_word, y_word, <=, Pl_Blt_Fast_Lte);
}

Bool FC ref_Pl_Blt_Gt(WamWord x_word, WamWord y_word)
{
  Cmp_IFxIF(x_word, y_word, >, Pl_Blt_Fast_Gt);
}

Bool FC ref_Pl_Blt_Gte(WamWord x_word, WamWord y_word)
{
  Cmp_IFxIF(x_word, y_word, >=, Pl_Blt_Fast_Gte);
}

#define CURRENT_EVALUABLE_ALT X1_2463757272656E745F6576616C7561626C655F616C74

Prolog_Prototype(CURRENT_EVALUABLE_ALT, 0);

Bool ref_Pl_Current_Evaluable_1(WamWord func_indic_word)
{
  WamWord name_word, arity_word;
  HashScan scan;
  EvaluableInf *evaluable;
  int func, arity;
  int func1, arity1;
  Bool all;

  func = Pl_Get_Pred_Indicator(func_indic_word, FALSE, &arity);
  name_word = pl_pi_name_word;
  arity_word = pl_pi_arity_word;

  if (func >= 0 && arity >= 0)
    {
      evaluable = Pl_Lookup_Evaluable(func, arity);
      return evaluable != NULL;
    }

  all = (func == -1 && arity == -1);

  evaluable = (EvaluableInf *) Pl_HTBL_First(evaluable_htbl, &scan);
  for (;;)
    {
      if (evaluable == NULL)
	return FALSE;

      func1 = Functor_Of(evaluable->f_n);
      arity1 = Arity_Of(evaluable->f_n);

      if (all || func == func1 || arity == arity1)
	break;

      evaluable = (EvaluableInf *) Pl_HTBL_Next(&scan);
    }

  A(0) = name_word;
  A(1) = arity_word;
  A(2) = (WamWord) scan.end_t;
  A(3) = (WamWord) scan.cur_t;
  A(4) = (WamWord) scan.cur_p;
  Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_EVALUABLE_ALT, 0), 5);

  return Pl_Get_Atom(Functor_Of(evaluable->f_n), name_word) &&
    Pl_Get_Integer(Arity_Of(evaluable->f_n), arity_word);

}

Bool ref_Pl_Current_Evaluable_Alt_0(void)
{
  WamWord name_word, arity_word;
  HashScan scan;
  EvaluableInf *evaluable;
  int func, arity;
  int func1, arity1;
  Bool all;

  Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_EVALUABLE_ALT, 0), 0);

  name_word = AB(B, 0);
  arity_word = AB(B, 1);
  scan.end_t = (HashNode *) AB(B, 2);
  scan.cur_t = (HashNode *) AB(B, 3);
  scan.cur_p = (HashNode)   AB(B, 4);

  func = Tag_Mask_Of(name_word) == TAG_REF_MASK ? -1 : UnTag_ATM(name_word);
  arity = Tag_Mask_Of(arity_word) == TAG_REF_MASK ? -1 : (int) UnTag_INT(arity_word);

  all = (func == -1 && arity == -1);

  for (;;)
    {
      evaluable = (EvaluableInf *) Pl_HTBL_Next(&scan);
      if (evaluable == NULL)
	{
	  Delete_Last_Choice_Point();
	  return FALSE;
	}

      func1 = Functor_Of(evaluable->f_n);
      arity1 = Arity_Of(evaluable->f_n);

      if (all || func == func1 || arity == arity1)
	break;
    }

  AB(B, 3) = (WamWord) scan.cur_t;
  AB(B, 4) = (WamWord) scan.cur_p;

  return Pl_Get_Atom(Functor_Of(evaluable->f_n), name_word) &&
    Pl_Get_Integer(Arity_Of(evaluable->f_n), arity_word);
}

Bool ref_Pl_Evaluable_Prop_Built_In_2(WamWord func_word, WamWord arity_word)
{
  int func = Pl_Rd_Atom(func_word);
  int arity = Pl_Rd_C_Int(arity_word);
  EvaluableInf *evaluable = Pl_Lookup_Evaluable(func, arity);

  return evaluable != NULL;
}

Bool ref_Pl_Evaluable_Prop_Static_2(WamWord func_word, WamWord arity_word)
{
  int func = Pl_Rd_Atom(func_word);
  int arity = Pl_Rd_C_Int(arity_word);
  EvaluableInf *evaluable = Pl_Lookup_Evaluable(func, arity);

  return evaluable != NULL;
}

Bool ref_Pl_Evaluable_Prop_ISO_2(WamWord func_word, WamWord arity_word)
{
  int func = Pl_Rd_Atom(func_word);
  int arity = Pl_Rd_C_Int(arity_word);
  EvaluableInf *evaluable = Pl_Lookup_Evaluable(func, arity);

  return evaluable != NULL && evaluable->is_iso;
}

Bool ref_Pl_Evaluable_Prop_Signature_3(WamWord func_word, WamWord arity_word, WamWord signature_word)
{
  int func = Pl_Rd_Atom(func_word);
  int arity = Pl_Rd_C_Int(arity_word);
  EvaluableInf *evaluable = Pl_Lookup_Evaluable(func, arity);

  return evaluable != NULL && Pl_Get_Atom(evaluable->signat_atom, signature_word);
}
