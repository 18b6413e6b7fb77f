/* How a built-in takes its arguments (c_supp.c): what it accepts, the error for anything else, what it reads and unifies. */
#include <string.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "wam_ref.h"

extern WamWord pair_functor __asm__("Pl_Check_For_Un_Pair.minus_2");
#define D WamWord word, tag; DEREF(start, word, tag)
#define VAR (tag == TAG_REF_MASK)
#define INT (tag == TAG_INT_MASK)
#define FLT (tag == TAG_FLT_MASK)
#define ATM (tag == TAG_ATM_MASK)
#define LST (tag == TAG_LST_MASK)
#define STC (tag == TAG_STC_MASK)
#define INST if (VAR) Pl_Err_Instantiation()
#define NUMBER(w) (Tag_Mask_Of(w) == TAG_INT_MASK ? (double) UnTag_INT(w) : Pl_Obtain_Float(UnTag_FLT(w)))
#define CODE(c) ((c) >= 1 && (c) <= 255)
#define BYTE(c) ((c) >= 0 && (c) <= 255)
#define BOOLEAN (ATM && (UnTag_ATM(word) == pl_atom_true || UnTag_ATM(word) == pl_atom_false))
#define CHAR (ATM && pl_atom_tbl[UnTag_ATM(word)].prop.length == 1)
#define EOFA (ATM && UnTag_ATM(word) == pl_atom_end_of_file)

/* an element of a type: the checked reader raises an error for anything else, the unchecked one supposes the type */
#define RD(ctype, name, test, error, value)                                             \
  ctype ref_Pl_Rd_##name##_Check(WamWord start) { D; INST; if (!(test)) error; return value; }
RD(PlLong, Integer, INT, Pl_Err_Type(pl_type_integer, word), UnTag_INT(word))
RD(double, Float, FLT, Pl_Err_Type(pl_type_float, word), Pl_Obtain_Float(UnTag_FLT(word)))
RD(double, Number, INT || FLT, Pl_Err_Type(pl_type_number, word), NUMBER(word))
RD(int, Atom, ATM, Pl_Err_Type(pl_type_atom, word), UnTag_ATM(word))
RD(int, Boolean, BOOLEAN, Pl_Err_Type(pl_type_boolean, word), UnTag_ATM(word) != pl_atom_false)
RD(int, Char, CHAR, Pl_Err_Type(pl_type_character, word), pl_atom_tbl[UnTag_ATM(word)].name[0])
RD(int, In_Char, EOFA || CHAR, Pl_Err_Type(pl_type_in_character, word), UnTag_ATM(word) == pl_atom_end_of_file ? -1 : pl_atom_tbl[UnTag_ATM(word)].name[0])
RD(int, Byte, INT && BYTE(UnTag_INT(word)), Pl_Err_Type(pl_type_byte, word), (int) UnTag_INT(word))
RD(int, In_Byte, INT && (UnTag_INT(word) == -1 || BYTE(UnTag_INT(word))), Pl_Err_Type(pl_type_in_byte, word), (int) UnTag_INT(word))
RD(char *, String, ATM, Pl_Err_Type(pl_type_atom, word), pl_atom_tbl[UnTag_ATM(word)].name)

#define RDU(ctype, name, value) ctype ref_Pl_Rd_##name(WamWord start) { D; return value; }
RDU(PlLong, Integer, UnTag_INT(word))
RDU(PlLong, Positive, UnTag_INT(word))
RDU(int, C_Int, (int) UnTag_INT(word))
RDU(int, C_Int_Positive, (int) UnTag_INT(word))
RDU(double, Float, Pl_Obtain_Float(UnTag_FLT(word)))
RDU(double, Number, INT ? (double) UnTag_INT(word) : Pl_Obtain_Float(UnTag_FLT(word)))
RDU(int, Atom, UnTag_ATM(word))
RDU(int, Boolean, UnTag_ATM(word) != pl_atom_false)
RDU(int, Char, pl_atom_tbl[UnTag_ATM(word)].name[0])
RDU(int, In_Char, UnTag_ATM(word) == pl_atom_end_of_file ? -1 : pl_atom_tbl[UnTag_ATM(word)].name[0])
RDU(int, Code, (int) UnTag_INT(word))
RDU(int, In_Code, (int) UnTag_INT(word))
RDU(int, Byte, (int) UnTag_INT(word))
RDU(int, In_Byte, (int) UnTag_INT(word))
RDU(char *, String, pl_atom_tbl[UnTag_ATM(word)].name)

PlLong ref_Pl_Rd_Positive_Check(WamWord start)
{
  PlLong n = Pl_Rd_Integer_Check(start);
  if (n < 0)
    Pl_Err_Domain(pl_domain_not_less_than_zero, start);
  return n;
}

#define CINT(name, reader)                                                      \
int ref_Pl_Rd_##name##_Check(WamWord start)                                     \
{                                                                               \
  PlLong n = reader(start);                                                     \
  if (n < -2147483648L || n > 2147483647L)                                      \
    Pl_Err_Representation(pl_representation_integer_32bits);                    \
  return (int) n;                                                               \
}
CINT(C_Int, Pl_Rd_Integer_Check)
CINT(C_Int_Positive, Pl_Rd_Positive_Check)

int ref_Pl_Rd_Code_Check(WamWord start)
{
  PlLong c = Pl_Rd_Integer_Check(start);
  if (!CODE(c))
    Pl_Err_Representation(pl_representation_character_code);
  return (int) c;
}

int ref_Pl_Rd_In_Code_Check(WamWord start)
{
  PlLong c = Pl_Rd_Integer_Check(start);
  if (c != -1 && !CODE(c))
    Pl_Err_Representation(pl_representation_in_character_code);
  return (int) c;
}

/* ---- lists of characters or codes */
#define TEXT(name, check, before, elem)                                         \
int ref_Pl_Rd_##name(WamWord start, char *str)                                  \
{                                                                               \
  WamWord list = start, word, tag;                                              \
  Bool chars = TRUE;                                                            \
  int n = 0;                                                                    \
  for (;;)                                                                      \
    {                                                                           \
      DEREF(list, word, tag);                                                   \
      if (check && VAR)                                                         \
        Pl_Err_Instantiation();                                                 \
      if (word == NIL_WORD)                                                     \
        break;                                                                  \
      if (check && !LST)                                                        \
        Pl_Err_Type(pl_type_list, start);                                       \
      before;                                                                   \
      *str = elem(Car(UnTag_LST(word)));                                        \
      str++;                                                                    \
      n++;                                                                      \
      list = Cdr(UnTag_LST(word));                                              \
    }                                                                           \
  *str = 0;                                                                     \
  return n;                                                                     \
}
#define EITHER(x) (chars ? Pl_Rd_Char_Check(x) : Pl_Rd_Code_Check(x))
#define FIRST if (n == 0) chars = Pl_Blt_Atom(Car(UnTag_LST(word)))
TEXT(Chars_Str_Check, TRUE, , Pl_Rd_Char_Check)
TEXT(Chars_Str, FALSE, , Pl_Rd_Char_Check)
TEXT(Codes_Str_Check, TRUE, , Pl_Rd_Code_Check)
TEXT(Codes_Str, FALSE, , Pl_Rd_Code_Check)
TEXT(Chars_Or_Codes_Str_Check, TRUE, FIRST, EITHER)
TEXT(Chars_Or_Codes_Str, FALSE, FIRST, EITHER)

#define TEXTA(fct, list)                                                       \
int ref_Pl_Rd_Atom_Or_##fct(WamWord start, char *str)                          \
{                                                                               \
  D;                                                                            \
  if (word == NIL_WORD || !ATM)                                                 \
    return list(word, str);                                                     \
  strcpy(str, pl_atom_tbl[UnTag_ATM(word)].name);                               \
  return -1;                                                                    \
}
TEXTA(Chars_Or_Codes_Str_Check, Pl_Rd_Chars_Or_Codes_Str_Check)
TEXTA(Chars_Or_Codes_Str, Pl_Rd_Chars_Or_Codes_Str)

#define BUFF(name, f) char *ref_Pl_Rd_##name(WamWord start) { f(start, pl_glob_buff); return pl_glob_buff; }
BUFF(Chars, Pl_Rd_Chars_Str)
BUFF(Chars_Check, Pl_Rd_Chars_Str_Check)
BUFF(Codes, Pl_Rd_Codes_Str)
BUFF(Codes_Check, Pl_Rd_Codes_Str_Check)
BUFF(Chars_Or_Codes, Pl_Rd_Chars_Or_Codes_Str)
BUFF(Chars_Or_Codes_Check, Pl_Rd_Chars_Or_Codes_Str_Check)
BUFF(Atom_Or_Chars_Or_Codes, Pl_Rd_Atom_Or_Chars_Or_Codes_Str)
BUFF(Atom_Or_Chars_Or_Codes_Check, Pl_Rd_Atom_Or_Chars_Or_Codes_Str_Check)

/* ---- lists and compound terms */
WamWord *ref_Pl_Rd_List_Check(WamWord start)
{
  D;
  INST;
  if (word == NIL_WORD)
    return NULL;
  if (!LST)
    Pl_Err_Type(pl_type_list, start);
  return UnTag_LST(word);
}

WamWord *ref_Pl_Rd_List(WamWord start) { D; return word == NIL_WORD ? NULL : UnTag_LST(word); }

#define ITEMS(name, proto, check, elem)                                         \
int ref_Pl_Rd_Proper_List##name proto                                           \
{                                                                               \
  WamWord list = start, word, tag;                                              \
  int n = 0;                                                                    \
  for (;;)                                                                      \
    {                                                                           \
      DEREF(list, word, tag);                                                   \
      if (check && VAR)                                                         \
        Pl_Err_Instantiation();                                                 \
      if (word == NIL_WORD)                                                     \
        return n;                                                               \
      if (check && !LST)                                                        \
        Pl_Err_Type(pl_type_list, start);                                       \
      *arg = elem(Car(UnTag_LST(word)));                                        \
      arg++;                                                                    \
      n++;                                                                      \
      list = Cdr(UnTag_LST(word));                                              \
    }                                                                           \
}
ITEMS(_Check, (WamWord start, WamWord *arg), TRUE, )
ITEMS(_Check2, (WamWord start, WamWord *arg, WamWord (*elt)(WamWord x)), TRUE, (*elt))
ITEMS(, (WamWord start, WamWord *arg), FALSE, )

#define PARTS                                                                   \
  if (STC)                                                                      \
    {                                                                           \
      *func = Functor(UnTag_STC(word));                                         \
      *arity = Arity(UnTag_STC(word));                                          \
      return &Arg(UnTag_STC(word), 0);                                          \
    }                                                                           \
  if (LST)                                                                      \
    {                                                                           \
      *func = ATOM_CHAR('.');                                                   \
      *arity = 2;                                                               \
      return UnTag_LST(word);                                                   \
    }
#define ATOMIC(res) if (ATM) { *func = UnTag_ATM(word); *arity = 0; return res; }
WamWord *ref_Pl_Rd_Compound_Check(WamWord start, int *func, int *arity) { D; INST; PARTS; Pl_Err_Type(pl_type_compound, start); return NULL; }
WamWord *ref_Pl_Rd_Compound(WamWord start, int *func, int *arity) { D; PARTS; return NULL; }
WamWord *ref_Pl_Rd_Callable_Check(WamWord start, int *func, int *arity) { D; INST; ATOMIC(NULL); PARTS; Pl_Err_Type(pl_type_callable, start); return NULL; }
WamWord *ref_Pl_Rd_Callable(WamWord start, int *func, int *arity) { D; ATOMIC((WamWord *) arity); PARTS; return NULL; }

/* ---- an argument that is to be unified with a result: a variable or a term of the type */
#define TESTS                                                                   \
OUT(Integer, INT, Pl_Err_Type(pl_type_integer, word))                           \
OUT(Float, FLT, Pl_Err_Type(pl_type_float, word))                               \
OUT(Number, INT || FLT, Pl_Err_Type(pl_type_number, word))                      \
OUT(Atom, ATM, Pl_Err_Type(pl_type_atom, word))                                 \
OUT(Boolean, BOOLEAN, Pl_Err_Type(pl_type_boolean, word))                       \
OUT(Char, CHAR, Pl_Err_Type(pl_type_character, word))                           \
OUT(In_Char, EOFA || CHAR, Pl_Err_Type(pl_type_in_character, word))             \
OUT(Byte, INT && BYTE(UnTag_INT(word)), Pl_Err_Type(pl_type_byte, word))        \
OUT(In_Byte, INT && (UnTag_INT(word) == -1 || BYTE(UnTag_INT(word))), Pl_Err_Type(pl_type_in_byte, word)) \
OUT(Compound, LST || STC, Pl_Err_Type(pl_type_compound, word))                  \
OUT(Callable, ATM || LST || STC, Pl_Err_Type(pl_type_callable, word))
#define OUT(name, test, error) void ref_Pl_Check_For_Un_##name(WamWord start) { D; if (!VAR && !(test)) error; }
TESTS
#define OUT2(name, type, ok, error)                                             \
void ref_Pl_Check_For_Un_##name(WamWord start)                                  \
{                                                                               \
  D;                                                                            \
  if (!VAR && !INT)                                                             \
    Pl_Err_Type(pl_type_integer, word);                                         \
  if (INT && !(ok(UnTag_INT(word))))                                            \
    error;                                                                      \
}
#define NAT(n) ((n) >= 0)
#define CODE_EOF(c) ((c) == -1 || CODE(c))
OUT2(Positive, integer, NAT, Pl_Err_Domain(pl_domain_not_less_than_zero, word))
OUT2(Code, integer, CODE, Pl_Err_Representation(pl_representation_character_code))
OUT2(In_Code, integer, CODE_EOF, Pl_Err_Representation(pl_representation_in_character_code))
void ref_Pl_Check_For_Un_Variable(WamWord start) { D; if (!VAR) Pl_Err_Uninstantiation(word); }
void ref_Pl_Check_For_Un_String(WamWord start) { D; if (!VAR && !ATM) Pl_Err_Type(pl_type_atom, word); }
void ref_Pl_Check_For_Un_Pair(WamWord start)
{
  D;
  if (!VAR && !(STC && Functor_And_Arity(UnTag_STC(word)) == pair_functor))
    Pl_Err_Type(pl_type_pair, word);
}
void ref_Pl_Check_For_Un_List(WamWord start) { if (!Pl_Blt_List_Or_Partial_List(start)) Pl_Err_Type(pl_type_list, start); }

#define OUTL(name, proto, elem)                                                 \
void ref_Pl_Check_For_Un_##name proto                                           \
{                                                                               \
  WamWord list = start, word, tag;                                              \
  for (;;)                                                                      \
    {                                                                           \
      DEREF(list, word, tag);                                                   \
      if (VAR || word == NIL_WORD)                                              \
        return;                                                                 \
      if (!LST)                                                                 \
        Pl_Err_Type(pl_type_list, start);                                       \
      elem(Car(UnTag_LST(word)));                                               \
      list = Cdr(UnTag_LST(word));                                              \
    }                                                                           \
}
OUTL(Chars, (WamWord start), Pl_Check_For_Un_Char)
OUTL(Codes, (WamWord start), Pl_Check_For_Un_Code)
OUTL(List2, (WamWord start, void (*elt)(WamWord x)), (*elt))

/* ---- unification with a result */
#define UN(name, ctype, value)                                                  \
Bool ref_Pl_Un_##name(ctype x, WamWord start) { return value(start); }          \
Bool ref_Pl_Un_##name##_Check(ctype x, WamWord start)                           \
{                                                                               \
  D;                                                                            \
  ref_Pl_Check_For_Un_##name(word);                                             \
  return value(word);                                                           \
}
#define BOOLATOM(x) ((x) ? pl_atom_true : pl_atom_false)
#define CHARATOM(x) ((x) == -1 ? pl_atom_end_of_file : ATOM_CHAR(x))
#define V_INT(w) Pl_Get_Integer(x, w)
#define V_FLT(w) Pl_Get_Float(x, w)
#define V_NUM(w) ((double) (PlLong) x == x ? Pl_Get_Integer((PlLong) x, w) : Pl_Get_Float(x, w))
#define V_ATM(w) Pl_Get_Atom(x, w)
#define V_BOO(w) Pl_Get_Atom(BOOLATOM(x), w)
#define V_CHA(w) Pl_Get_Atom(ATOM_CHAR(x), w)
#define V_INC(w) Pl_Get_Atom(CHARATOM(x), w)
#define V_STR(w) Pl_Get_Atom(Pl_Create_Allocate_Atom(x), w)
UN(Integer, PlLong, V_INT)
UN(Positive, PlLong, V_INT)
UN(Float, double, V_FLT)
UN(Number, double, V_NUM)
UN(Atom, int, V_ATM)
UN(Boolean, int, V_BOO)
UN(Char, int, V_CHA)
UN(In_Char, int, V_INC)
UN(Code, int, V_INT)
UN(In_Code, int, V_INT)
UN(Byte, int, V_INT)
UN(In_Byte, int, V_INT)
UN(String, char *, V_STR)

#define UNL(name, unify)                                                        \
Bool ref_Pl_Un_##name(char *str, WamWord start)                                 \
{                                                                               \
  while (*str)                                                                  \
    {                                                                           \
      if (!Pl_Get_List(start))                                                  \
        return FALSE;                                                           \
      if (!unify)                                                               \
        return FALSE;                                                           \
      start = Pl_Unify_Variable();                                              \
      str++;                                                                    \
    }                                                                           \
  return Pl_Get_Nil(start);                                                     \
}                                                                               \
Bool ref_Pl_Un_##name##_Check(char *str, WamWord start)                         \
{                                                                               \
  Pl_Check_For_Un_##name(start);                                                \
  return Pl_Un_##name(str, start);                                              \
}
UNL(Chars, Pl_Unify_Atom(ATOM_CHAR(*str)))
UNL(Codes, Pl_Unify_Integer(*str))

Bool ref_Pl_Un_List(WamWord *arg, WamWord start)
{
  if (arg == NULL)
    return Pl_Get_Nil(start);
  if (!Pl_Get_List(start))
    return FALSE;
  if (!Pl_Unify_Local_Value(arg[0]))
    return FALSE;
  return Pl_Unify_Local_Value(arg[1]);
}

Bool ref_Pl_Un_List_Check(WamWord *arg, WamWord start)
{
  if (arg == NULL ? Pl_Get_Nil(start) : Pl_Get_List(start))
    {
      if (arg == NULL)
        return TRUE;
      return Pl_Unify_Local_Value(arg[0]) && Pl_Unify_Local_Value(arg[1]);
    }
  {
    D;
    if (!(word == NIL_WORD || LST))
      Pl_Err_Type(pl_type_list, start);
  }
  return FALSE;
}

Bool ref_Pl_Un_Proper_List(int n, WamWord *arg, WamWord start)
{
  int i;
  if (n > 0 && arg != NULL)
    for (i = 0; i < n; i++)
      {
        if (!Pl_Get_List(start))
          return FALSE;
        if (!Pl_Unify_Local_Value(arg[i]))
          return FALSE;
        start = Pl_Unify_Variable();
      }
  return Pl_Get_Nil(start);
}

Bool ref_Pl_Un_Proper_List_Check(int n, WamWord *arg, WamWord start)
{
  Pl_Check_For_Un_List(start);
  return Pl_Un_Proper_List(n, arg, start);
}

#define UNC(name, list, otherwise)                                              \
Bool ref_Pl_Un_##name(int func, int arity, WamWord *arg, WamWord start)         \
{                                                                               \
  int i;                                                                        \
  if (arity == 0)                                                               \
    return Pl_Un_Atom_Check(func, start);                                       \
  if (func == ATOM_CHAR('.') && arity == 2)                                     \
    return list(arg, start);                                                    \
  if (Pl_Get_Structure(func, arity, start))                                     \
    {                                                                           \
      for (i = 0; i < arity; i++)                                               \
        if (!Pl_Unify_Local_Value(arg[i]))                                      \
          return FALSE;                                                         \
      return TRUE;                                                              \
    }                                                                           \
  otherwise;                                                                    \
  return FALSE;                                                                 \
}
UNC(Compound, Pl_Un_List, )
UNC(Compound_Check, Pl_Un_List_Check, if (!Pl_Blt_Compound(start)) Pl_Err_Type(pl_type_compound, start))
UNC(Callable_Check, Pl_Un_List_Check, if (!Pl_Blt_Callable(start)) Pl_Err_Type(pl_type_callable, start))
Bool ref_Pl_Un_Callable(int func, int arity, WamWord *arg, WamWord start) { return Pl_Un_Compound(func, arity, arg, start); }
Bool ref_Pl_Un_Term(WamWord t, WamWord start) { return Pl_Unify(t, start); }

/* ---- construction */
#define MK(name, ctype, value) WamWord ref_Pl_Mk_##name(ctype x) { return value; }
MK(Integer, PlLong, Pl_Put_Integer(x))
MK(Positive, PlLong, Pl_Put_Integer(x))
MK(Float, double, Pl_Put_Float(x))
MK(Number, double, (double) (PlLong) x == x ? Pl_Put_Integer((PlLong) x) : Pl_Put_Float(x))
MK(Atom, int, Pl_Put_Atom(x))
MK(Boolean, int, Pl_Put_Atom(BOOLATOM(x)))
MK(Char, int, Pl_Put_Atom(ATOM_CHAR(x)))
MK(In_Char, int, Pl_Put_Atom(CHARATOM(x)))
MK(Code, int, Pl_Put_Integer(x))
MK(In_Code, int, Pl_Put_Integer(x))
MK(Byte, int, Pl_Put_Integer(x))
MK(In_Byte, int, Pl_Put_Integer(x))
MK(String, char *, Pl_Put_Atom(Pl_Create_Allocate_Atom(x)))
WamWord ref_Pl_Mk_Variable(void) { return Pl_Put_X_Variable(); }

#define MKL(name, unify)                                                        \
WamWord ref_Pl_Mk_##name(char *str)                                             \
{                                                                               \
  WamWord res;                                                                  \
  if (*str == 0)                                                                \
    return NIL_WORD;                                                            \
  res = Pl_Put_List();                                                          \
  unify;                                                                        \
  while (*++str)                                                                \
    {                                                                           \
      Pl_Unify_List();                                                          \
      unify;                                                                    \
    }                                                                           \
  Pl_Unify_Nil();                                                               \
  return res;                                                                   \
}
MKL(Chars, Pl_Unify_Atom(ATOM_CHAR(*str)))
MKL(Codes, Pl_Unify_Integer(*str))

WamWord ref_Pl_Mk_List(WamWord *arg)
{
  WamWord res;
  if (arg == NULL)
    return NIL_WORD;
  res = Pl_Put_List();
  Pl_Unify_Local_Value(arg[0]);
  Pl_Unify_Local_Value(arg[1]);
  return res;
}

/* the last cell first: the array may lie where the list is to be built */
#define MKP(name, proto, cell)                                                  \
WamWord ref_Pl_Mk_##name proto                                                  \
{                                                                               \
  WamWord *p;                                                                   \
  if (n <= 0 || arg == NULL)                                                    \
    return NIL_WORD;                                                            \
  arg += n;                                                                     \
  H = H + 2 * n;                                                                \
  p = H;                                                                        \
  *--p = NIL_WORD;                                                              \
  goto last;                                                                    \
  do                                                                            \
    {                                                                           \
      --p;                                                                      \
      *p = Tag_LST(p + 1);                                                      \
    last:                                                                       \
      *--p = cell(*--arg);                                                      \
    }                                                                           \
  while (--n);                                                                  \
  return Tag_LST(p);                                                            \
}
#define ATOMOF(s) Tag_ATM(Pl_Create_Atom(s))
MKP(Proper_List, (int n, WamWord *arg), Pl_Globalize_If_In_Local)
MKP(Proper_Atom_List, (int n, char **arg), ATOMOF)

WamWord ref_Pl_Mk_Compound(int func, int arity, WamWord *arg)
{
  WamWord res;
  int i;
  if (arity == 0)
    return Pl_Put_Atom(func);
  if (func == ATOM_CHAR('.') && arity == 2)
    return Pl_Mk_List(arg);
  res = Pl_Put_Structure(func, arity);
  for (i = 0; i < arity; i++)
    Pl_Unify_Local_Value(arg[i]);
  return res;
}
WamWord ref_Pl_Mk_Callable(int func, int arity, WamWord *arg) { return Pl_Mk_Compound(func, arity, arg); }

void ref_Pl_Check_Empty_List(WamWord start, WamWord full)
{
  D;
  INST;
  if (LST)
    Pl_Err_Domain(pl_domain_number_of_arguments, full);
  if (word != NIL_WORD)
    Pl_Err_Type(pl_type_list, full);
}
