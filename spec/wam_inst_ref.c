/* Reference functions for wam_inst.c and unify.c: the instructions of compiled code, unification, choice points. */
#include "engine_pl.h"
#include "wam_ref.h"

typedef union { double d; WamWord i[1]; } Dbl;
static double flt_(WamWord *adr) { Dbl x; x.i[0] = adr[0]; return x.d; }
static void push_flt_(double d) { Dbl x; x.d = d; Global_Push(x.i[0]); }

WamWord ref_Pl_Create_Functor_Arity_Tagged(char *f, int n)
{
  int a = Pl_Create_Atom(f);
  return Functor_Arity(a, n);
}

SwtTbl ref_Pl_Create_Swt_Table(int size) { return (SwtTbl) Calloc(size + 1, 16); }

SwtInf *ref_Locate_Swt_Element(SwtTbl t, int size, PlLong key)
{
  SwtInf *p;
  size++;
  for (p = t + (int) (key % size); p->codep && p->key != key;)
    {
      p++;
      if (p == t + size)
        p = t;
    }
  return p;
}
SwtInf *Locate_Swt_Element(SwtTbl t, int size, PlLong key);

void ref_Pl_Create_Swt_Atm_Element(SwtTbl t, int size, int atom, CodePtr code)
{
  SwtInf *p = ref_Locate_Swt_Element(t, size, atom);
  p->key = atom;
  p->codep = code;
}

void ref_Pl_Create_Swt_Int_Element(SwtTbl t, int size, PlLong n, CodePtr code)
{
  SwtInf *p = ref_Locate_Swt_Element(t, size, n);
  p->key = n;
  p->codep = code;
}

void ref_Pl_Create_Swt_Stc_Element(SwtTbl t, int size, int f, int n, CodePtr code)
{
  PlLong key = Functor_Arity(f, n);
  SwtInf *p = ref_Locate_Swt_Element(t, size, key);
  p->key = key;
  p->codep = code;
}

/* --- get */

#define GET(start, otherwise, bind)             \
  WamWord word, tag;                            \
  DEREF(start, word, tag);                      \
  if (tag == TAG_REF_MASK)                      \
    { bind }                                    \
  otherwise

Bool ref_Pl_Get_Atom_Tagged(WamWord w, WamWord s)
{
  GET(s, return word == w;, Bind_UV((Adr) word, w); return TRUE;)
}
Bool ref_Pl_Get_Atom(int a, WamWord s)
{
  GET(s, return word == Tag_ATM(a);, Bind_UV((Adr) word, Tag_ATM(a)); return TRUE;)
}
Bool ref_Pl_Get_Integer_Tagged(WamWord w, WamWord s)
{
  GET(s, if (tag == TAG_FDV_MASK) return Fd_Unify_With_Integer(UnTag_FDV(word), UnTag_INT(w)); return word == w;,
      Bind_UV((Adr) word, w); return TRUE;)
}
Bool ref_Pl_Get_Integer(PlLong n, WamWord s)
{
  return ref_Pl_Get_Integer_Tagged(Tag_INT(n), s);
}
Bool ref_Pl_Get_Float(double n, WamWord s)
{
  GET(s, return tag == TAG_FLT_MASK && Pl_Obtain_Float(UnTag_FLT(word)) == n;, Bind_UV((Adr) word, Tag_FLT(H)); push_flt_(n); return TRUE;)
}
Bool ref_Pl_Get_Nil(WamWord s)
{
  GET(s, return word == NIL_WORD;, Bind_UV((Adr) word, NIL_WORD); return TRUE;)
}
Bool ref_Pl_Get_List(WamWord s)
{
  GET(s, if (tag != TAG_LST_MASK) return FALSE; S = UnTag_LST(word); return TRUE;, Bind_UV((Adr) word, Tag_LST(H)); S = NULL; return TRUE;)
}
Bool ref_Pl_Get_Structure_Tagged(WamWord w, WamWord s)
{
  GET(s, if (tag != TAG_STC_MASK || *UnTag_STC(word) != w) return FALSE; S = UnTag_STC(word) + 1; return TRUE;,
      Adr h = H; *h = w; H = h + 1; S = NULL; Bind_UV((Adr) word, Tag_STC(h)); return TRUE;)
}
Bool ref_Pl_Get_Structure(int f, int n, WamWord s)
{
  return ref_Pl_Get_Structure_Tagged(Functor_Arity(f, n), s);
}

/* --- put */

static WamWord new_var_(void)
{
  Adr h = H;
  *h = (WamWord) h;
  H = h + 1;
  return (WamWord) h;
}
WamWord ref_Pl_Put_X_Variable(void) { return new_var_(); }
WamWord ref_Pl_Put_Y_Variable(WamWord *y) { *y = (WamWord) y; return (WamWord) y; }
WamWord ref_Pl_Put_Unsafe_Value(WamWord s)
{
  WamWord word, tag, v;
  DEREF(s, word, tag);
  if (tag == TAG_REF_MASK && (Adr) word >= EE(E))
    {
      v = new_var_();
      Bind_UV((Adr) word, v);
      return v;
    }
  Do_Copy_Of_Word(tag, word);
  return word;
}
WamWord ref_Pl_Put_Atom_Tagged(WamWord w) { return w; }
WamWord ref_Pl_Put_Atom(int a) { return Tag_ATM(a); }
WamWord ref_Pl_Put_Integer_Tagged(WamWord w) { return w; }
WamWord ref_Pl_Put_Integer(PlLong n) { return Tag_INT(n); }
WamWord ref_Pl_Put_Float(double n)
{
  Adr h = H;
  push_flt_(n);
  return Tag_FLT(h);
}
WamWord ref_Pl_Put_Nil(void) { return NIL_WORD; }
WamWord ref_Pl_Put_List(void) { S = NULL; return Tag_LST(H); }
WamWord ref_Pl_Put_Structure_Tagged(WamWord w)
{
  Adr h = H;
  Global_Push(w);
  S = NULL;
  return Tag_STC(h);
}
WamWord ref_Pl_Put_Structure(int f, int n) { return ref_Pl_Put_Structure_Tagged(Functor_Arity(f, n)); }

WamWord ref_Pl_Put_Meta_Term_Tagged(WamWord module, WamWord goal)
{
  WamWord word, tag, m;
  Adr adr, h = H;

  DEREF(goal, word, tag);
  if (tag == TAG_STC_MASK)
    {
      adr = UnTag_STC(word);
      if (Functor_And_Arity(adr) == Functor_Arity(ATOM_CHAR(':'), 2))
        {
          DEREF(module, m, tag);
          module = m;
          DEREF(Arg(adr, 0), word, tag);
          if (word == m)
            return goal;
        }
    }
  h[0] = Functor_Arity(ATOM_CHAR(':'), 2);
  h[1] = module;
  h[2] = goal;
  H = h + 3;
  return Tag_STC(h);
}
WamWord ref_Pl_Put_Meta_Term(int m, WamWord goal) { return ref_Pl_Put_Meta_Term_Tagged(Tag_ATM(m), goal); }

/* --- unify */

#define ARG_(read, write)                       \
  WamWord word, tag;                            \
  if (S == NULL)                                \
    {                                           \
      Global_Push(write);                       \
      return TRUE;                              \
    }                                           \
  DEREF(*S, word, tag);                         \
  S = S + 1;                                    \
  if (tag == TAG_REF_MASK)                      \
    {                                           \
      Bind_UV((Adr) word, write);               \
      return TRUE;                              \
    }                                           \
  read

WamWord ref_Pl_Unify_Variable(void)
{
  WamWord w;
  if (S == NULL)
    return new_var_();
  w = *S;
  S = S + 1;
  Do_Copy_Of_Word(Tag_Mask_Of(w), w);
  return w;
}
void ref_Pl_Unify_Void(int n)
{
  Adr h;
  if (S != NULL)
    {
      S = S + n;
      return;
    }
  h = H;
  H = H + n;
  do
    {
      *h = (WamWord) h;
      h++;
      n--;
    }
  while (n > 0);
}
Bool ref_Pl_Unify_Value(WamWord s)
{
  WamWord w;
  if (S == NULL)
    {
      Global_Push(s);
      return TRUE;
    }
  w = *S;
  S = S + 1;
  return Pl_Unify(s, w);
}
Bool ref_Pl_Unify_Local_Value(WamWord s)
{
  WamWord word, tag, v;
  if (S != NULL)
    {
      word = *S;
      S = S + 1;
      return Pl_Unify(s, word);
    }
  DEREF(s, word, tag);
  if (tag == TAG_REF_MASK && Is_A_Local_Adr(word))
    {
      v = new_var_();
      Bind_UV((Adr) word, v);
      return TRUE;
    }
  Do_Copy_Of_Word(tag, word);
  Global_Push(word);
  return TRUE;
}
Bool ref_Pl_Unify_Atom_Tagged(WamWord w) { ARG_(return word == w;, w) }
Bool ref_Pl_Unify_Atom(int a) { ARG_(return word == Tag_ATM(a);, Tag_ATM(a)) }
Bool ref_Pl_Unify_Integer_Tagged(WamWord w)
{
  ARG_(if (tag == TAG_FDV_MASK) return Fd_Unify_With_Integer(UnTag_FDV(word), UnTag_INT(w)); return word == w;, w)
}
Bool ref_Pl_Unify_Integer(PlLong n) { return ref_Pl_Unify_Integer_Tagged(Tag_INT(n)); }
Bool ref_Pl_Unify_Nil(void) { ARG_(return word == NIL_WORD;, NIL_WORD) }
Bool ref_Pl_Unify_List(void)
{
  Adr h = H;
  if (S != NULL)
    return ref_Pl_Get_List(*S);
  *h = Tag_LST(h + 1);
  H = h + 1;
  return TRUE;
}
Bool ref_Pl_Unify_Structure_Tagged(WamWord w)
{
  Adr h = H;
  if (S != NULL)
    return ref_Pl_Get_Structure_Tagged(w, *S);
  h[0] = Tag_STC(h + 1);
  h[1] = w;
  H = h + 2;
  return TRUE;
}
Bool ref_Pl_Unify_Structure(int f, int n) { return ref_Pl_Unify_Structure_Tagged(Functor_Arity(f, n)); }

WamWord ref_Pl_Globalize_If_In_Local(WamWord s)
{
  WamWord word, tag, v;
  DEREF(s, word, tag);
  if (tag != TAG_REF_MASK || !Is_A_Local_Adr(word))
    return tag == TAG_FDV_MASK ? Tag_REF(UnTag_Address(word)) : word;
  v = new_var_();
  Bind_UV((Adr) word, v);
  return v;
}

/* --- environments */

static Adr top_(void) { return B >= E ? B : E; }

void ref_Pl_Allocate(int n)
{
  Adr e = top_() + 2 + n, old = E;
  CPE(e) = CP;
  EE(e) = old;
  E = e;
}
void ref_Pl_Deallocate(void)
{
  Adr e = E;
  CP = CPE(e);
  E = EE(e);
}

/* --- indexing */

#define FIRST(word, tag) WamWord word, tag; DEREF(A(0), word, tag); A(0) = word;
#define VAR_(tag) ((tag) == TAG_REF_MASK || (tag) == TAG_FDV_MASK)

CodePtr ref_Pl_Switch_On_Term(CodePtr v, CodePtr a, CodePtr i, CodePtr l, CodePtr s)
{
  CodePtr c;
  FIRST(word, tag)
  c = tag == TAG_LST_MASK ? l : tag == TAG_STC_MASK ? s : tag == TAG_ATM_MASK ? a : tag == TAG_INT_MASK ? i : v;
  return c ? c : ALTB(B);
}
CodePtr ref_Pl_Switch_On_Term_Var_Atm(CodePtr v, CodePtr a)
{
  FIRST(word, tag)
  return tag == TAG_ATM_MASK ? a : VAR_(tag) ? v : ALTB(B);
}
CodePtr ref_Pl_Switch_On_Term_Var_Stc(CodePtr v, CodePtr s)
{
  FIRST(word, tag)
  return tag == TAG_STC_MASK ? s : VAR_(tag) ? v : ALTB(B);
}
CodePtr ref_Pl_Switch_On_Term_Var_Atm_Lst(CodePtr v, CodePtr a, CodePtr l)
{
  FIRST(word, tag)
  return tag == TAG_LST_MASK ? l : tag == TAG_ATM_MASK ? a : VAR_(tag) ? v : ALTB(B);
}
CodePtr ref_Pl_Switch_On_Term_Var_Atm_Stc(CodePtr v, CodePtr a, CodePtr s)
{
  FIRST(word, tag)
  return tag == TAG_STC_MASK ? s : tag == TAG_ATM_MASK ? a : VAR_(tag) ? v : ALTB(B);
}
CodePtr ref_Pl_Switch_On_Atom(SwtTbl t, int size)
{
  CodePtr c = ref_Locate_Swt_Element(t, size, UnTag_ATM(A(0)))->codep;
  return c ? c : ALTB(B);
}
CodePtr ref_Pl_Switch_On_Integer(SwtTbl t, int size)
{
  CodePtr c = ref_Locate_Swt_Element(t, size, UnTag_INT(A(0)))->codep;
  return c ? c : ALTB(B);
}
PlLong ref_Pl_Switch_On_Integer_For_Dichotomy(void) { return UnTag_INT(A(0)); }
CodePtr ref_Pl_Switch_On_Structure(SwtTbl t, int size)
{
  CodePtr c = ref_Locate_Swt_Element(t, size, *UnTag_STC(A(0)))->codep;
  return c ? c : ALTB(B);
}

/* --- cut */

static void cut_to_(WamWord *b)
{
  B = b;
  HB1 = HB(b);
}
WamWord ref_Pl_Get_Current_Choice(void) { return Tag_INT(B - LSSA); }
void ref_Pl_Cut(WamWord w) { cut_to_(LSSA + UnTag_INT(w)); }
void ref_Pl_Soft_Cut(WamWord w)
{
  Adr k = LSSA + UnTag_INT(w), b = B, p;
  if (b == k)
    {
      cut_to_(BB(b));
      return;
    }
  for (;;)
    {
      p = BB(b);
      if (p == k)
        {
          BB(b) = BB(k);
          return;
        }
      if (b < k)
        return;
      b = p;
    }
}

void ref_Pl_Global_Push_Float(double d) { push_flt_(d); }
double ref_Pl_Obtain_Float(WamWord *adr) { return flt_(adr); }

/* --- choice points */

static Adr create_(CodePtr alt, int n)
{
  Adr b = top_() + 7 + n;
  ALTB(b) = alt;
  CPB(b) = CP;
  EB(b) = E;
  BB(b) = B;
  HB(b) = H;
  TRB(b) = TR;
  CSB(b) = CS;
  HB1 = H;
  B = b;
  STAMP = STAMP + 1;
  return b;
}
static Adr restore_(void)
{
  Adr b = B;
  Pl_Untrail(TRB(b));
  CP = CPB(b);
  H = HB(b);
  E = EB(b);
  CS = CSB(b);
  return b;
}
static Adr update_(CodePtr alt)
{
  Adr b = restore_();
  ALTB(b) = alt;
  HB1 = HB(b);
  return b;
}
static Adr delete_(void)
{
  Adr b = restore_();
  cut_to_(BB(b));
  STAMP = STAMP - 1;
  return b;
}
#define IN(n) AB(b, n) = A(n);
#define OUT(n) A(n) = AB(b, n);
void ref_Pl_Create_Choice_Point(CodePtr alt, int n) { int i; Adr b = create_(alt, n); for (i = 0; i < n; i++) IN(i) }
void ref_Pl_Create_Choice_Point0(CodePtr alt) { create_(alt, 0); }
void ref_Pl_Create_Choice_Point1(CodePtr alt) { Adr b = create_(alt, 1); IN(0) }
void ref_Pl_Create_Choice_Point2(CodePtr alt) { Adr b = create_(alt, 2); IN(0) IN(1) }
void ref_Pl_Create_Choice_Point3(CodePtr alt) { Adr b = create_(alt, 3); IN(0) IN(1) IN(2) }
void ref_Pl_Create_Choice_Point4(CodePtr alt) { Adr b = create_(alt, 4); IN(0) IN(1) IN(2) IN(3) }
void ref_Pl_Update_Choice_Point(CodePtr alt, int n) { int i; Adr b = update_(alt); for (i = 0; i < n; i++) OUT(i) }
void ref_Pl_Update_Choice_Point0(CodePtr alt) { update_(alt); }
void ref_Pl_Update_Choice_Point1(CodePtr alt) { Adr b = update_(alt); OUT(0) }
void ref_Pl_Update_Choice_Point2(CodePtr alt) { Adr b = update_(alt); OUT(0) OUT(1) }
void ref_Pl_Update_Choice_Point3(CodePtr alt) { Adr b = update_(alt); OUT(0) OUT(1) OUT(2) }
void ref_Pl_Update_Choice_Point4(CodePtr alt) { Adr b = update_(alt); OUT(0) OUT(1) OUT(2) OUT(3) }
void ref_Pl_Delete_Choice_Point(int n) { int i; Adr b = delete_(); for (i = 0; i < n; i++) OUT(i) }
void ref_Pl_Delete_Choice_Point0(void) { delete_(); }
void ref_Pl_Delete_Choice_Point1(void) { Adr b = delete_(); OUT(0) }
void ref_Pl_Delete_Choice_Point2(void) { Adr b = delete_(); OUT(0) OUT(1) }
void ref_Pl_Delete_Choice_Point3(void) { Adr b = delete_(); OUT(0) OUT(1) OUT(2) }
void ref_Pl_Delete_Choice_Point4(void) { Adr b = delete_(); OUT(0) OUT(1) OUT(2) OUT(3) }
void ref_Pl_Defeasible_Open(void) { create_(NULL, 0); }
void ref_Pl_Defeasible_Undo(void) { update_(NULL); }
void ref_Pl_Defeasible_Close(Bool success)
{
  if (success)
    cut_to_(BB(B));
  else
    delete_();
}

/* trail entries, last first: cell; old value, cell | 1; old values, number, cells | 2; arguments, number, function, 3 */
#define POP_ (TR = TR - 1, *TR)
void ref_Pl_Untrail(WamWord *low)
{
  while (TR > low)
    {
      WamWord w = POP_;
      Adr p = (Adr) ((PlULong) w & ~(PlULong) 3), from;
      int n;

      if ((w & 3) == 0)
        *p = (WamWord) p;
      else if ((w & 3) == 1)
        *p = POP_;
      else if ((w & 3) == 2)
        {
          n = (int) POP_;
          TR = TR - n;
          from = TR;
          do
            *p++ = *from++;
          while (--n);
        }
      else
        {
          p = (Adr) POP_;
          n = (int) POP_;
          TR = TR - n;
          (*(void (*)(int, WamWord *)) p)(n, TR);
        }
    }
}

/* --- unification */

#define UNIFY(name, check)                                                              \
Bool ref_##name(WamWord su, WamWord sv)                                                 \
{                                                                                       \
  WamWord u, tu, v, tv;                                                                 \
  Adr au, av;                                                                           \
  int i;                                                                                \
                                                                                        \
again:                                                                                  \
  DEREF(su, u, tu);                                                                     \
  DEREF(sv, v, tv);                                                                     \
  if (tu == TAG_REF_MASK)                                                               \
    {                                                                                   \
      au = (Adr) u;                                                                     \
      if (tv == TAG_REF_MASK)                                                           \
        {                                                                               \
          av = (Adr) v;                                                                 \
          if (au > av)          /* the newer one is bound to the older one */           \
            Bind_UV(au, (WamWord) av);                                                  \
          else if (av > au)                                                             \
            Bind_UV(av, (WamWord) au);                                                  \
          return TRUE;                                                                  \
        }                                                                               \
      check(au, v)                                                                      \
      Do_Copy_Of_Word(tv, v);                                                           \
      Bind_UV(au, v);                                                                   \
      return TRUE;                                                                      \
    }                                                                                   \
  if (tv == TAG_REF_MASK)                                                               \
    {                                                                                   \
      av = (Adr) v;                                                                     \
      check(av, u)                                                                      \
      Do_Copy_Of_Word(tu, u);                                                           \
      Bind_UV(av, u);                                                                   \
      return TRUE;                                                                      \
    }                                                                                   \
  if (u == v)                                                                           \
    return TRUE;                                                                        \
  if (tv == TAG_LST_MASK)                                                               \
    {                                                                                   \
      if (tu != TAG_LST_MASK)                                                           \
        return FALSE;                                                                   \
      au = UnTag_LST(u);                                                                \
      av = UnTag_LST(v);                                                                \
      if (!name(Car(au), Car(av)))                                                      \
        return FALSE;                                                                   \
      su = Cdr(au);                                                                     \
      sv = Cdr(av);                                                                     \
      goto again;                                                                       \
    }                                                                                   \
  if (tv == TAG_STC_MASK)                                                               \
    {                                                                                   \
      if (tu != TAG_STC_MASK)                                                           \
        return FALSE;                                                                   \
      au = UnTag_STC(u);                                                                \
      av = UnTag_STC(v);                                                                \
      if (Functor_And_Arity(au) != Functor_And_Arity(av))                               \
        return FALSE;                                                                   \
      i = Arity(au);                                                                    \
      if (i < 1)                                                                        \
        ref_undefined();                                                                \
      au++;                                                                             \
      av++;                                                                             \
      while (--i)                                                                       \
        {                                                                               \
          if (!name(*au, *av))                                                          \
            return FALSE;                                                               \
          au++;                                                                         \
          av++;                                                                         \
        }                                                                               \
      su = *au;                                                                         \
      sv = *av;                                                                         \
      goto again;                                                                       \
    }                                                                                   \
  if (tu == TAG_FDV_MASK && tv == TAG_INT_MASK)                                         \
    return Fd_Unify_With_Integer(UnTag_FDV(u), UnTag_INT(v));                           \
  if (tv == TAG_FDV_MASK && tu == TAG_INT_MASK)                                         \
    return Fd_Unify_With_Integer(UnTag_FDV(v), UnTag_INT(u));                           \
  if (tu == TAG_FDV_MASK && tv == TAG_FDV_MASK)                                         \
    return Fd_Unify_With_Fd_Var(UnTag_FDV(u), UnTag_FDV(v));                            \
  return tu == TAG_FLT_MASK && tv == TAG_FLT_MASK && Pl_Obtain_Float(UnTag_FLT(u)) == Pl_Obtain_Float(UnTag_FLT(v)); \
}

Bool Check_If_Var_Occurs(WamWord *x, WamWord t);
#define ANY_(adr, w)
#define OCCURS_(adr, w) if (!Is_A_Local_Adr(adr) && Check_If_Var_Occurs(adr, w)) return FALSE;
UNIFY(Pl_Unify, ANY_)
UNIFY(Pl_Unify_Occurs_Check, OCCURS_)

Bool ref_Check_If_Var_Occurs(WamWord *x, WamWord t)
{
  WamWord word, tag;
  Adr adr;
  int i;

again:
  DEREF(t, word, tag);
  if (tag == TAG_REF_MASK)
    return (Adr) word == x;
  if (tag == TAG_LST_MASK)
    {
      adr = UnTag_LST(word);
      if (Check_If_Var_Occurs(x, Car(adr)))
        return TRUE;
      t = Cdr(adr);
      goto again;
    }
  if (tag == TAG_STC_MASK)
    {
      adr = UnTag_STC(word);
      i = Arity(adr);
      if (i < 1)
        ref_undefined();
      adr++;
      while (--i)
        {
          if (Check_If_Var_Occurs(x, *adr))
            return TRUE;
          adr++;
        }
      t = *adr;
      goto again;
    }
  return FALSE;
}
