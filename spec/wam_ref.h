/* The macros of wam_inst.h the reference functions rely on, stated again. */
/* what the functions do from here on is not specified: such states do not exist */
void ref_undefined(void) __attribute__((noreturn));

#undef DEREF
#define DEREF(start, word, tag)                                 \
  do                                                            \
    {                                                           \
      WamWord before_;                                          \
      word = start;                                             \
      do                                                        \
        {                                                       \
          before_ = word;                                       \
          tag = Tag_Mask_Of(word);                              \
          if (tag != TAG_REF_MASK)                              \
            break;                                              \
          word = *(WamWord *) word;                             \
        }                                                       \
      while (word != before_);                                  \
    }                                                           \
  while (0)

#undef Functor_Arity
#undef Functor_Of
#undef Arity_Of
#undef Functor_And_Arity
#undef Functor
#undef Arity
#undef Arg
#undef Car
#undef Cdr
#define Functor_Arity(f, n) (((PlULong) (n) << 54) | (f))
#define Functor_Of(w) ((int) ((PlULong) (w) & (((PlULong) 1 << 54) - 1)))
#define Arity_Of(w) ((int) ((PlULong) (w) >> 54))
#define Functor_And_Arity(adr) (*(PlULong *) (adr))
#define Functor(adr) Functor_Of(Functor_And_Arity(adr))
#define Arity(adr) Arity_Of(Functor_And_Arity(adr))
#define Arg(adr, i) (((WamWord *) (adr))[1 + (i)])
#define Car(adr) (((WamWord *) (adr))[0])
#define Cdr(adr) (((WamWord *) (adr))[1])

#undef Do_Copy_Of_Word
#define Do_Copy_Of_Word(tag, word)                              \
  if ((tag) == TAG_FDV_MASK)                                    \
    word = (WamWord) ((PlULong) (word) & ~(PlULong) 7)

#undef Is_A_Local_Adr
#define Is_A_Local_Adr(adr) ((WamWord *) (adr) >= LSSA)
#undef Word_Needs_Trailing
#define Word_Needs_Trailing(adr) ((WamWord *) (adr) < HB1 || (Is_A_Local_Adr(adr) && (WamWord *) (adr) < B))
#undef Make_Self_Ref
#define Make_Self_Ref(adr) ((WamWord) (adr))
#undef Global_Push
#define Global_Push(w) (*H = (WamWord) (w), H = H + 1)
#ifndef NOTRAIL
#undef Trail_UV
#undef Trail_OV
#define Trail_UV(adr) (*TR = (WamWord) (adr), TR = TR + 1)
#define Trail_OV(adr) (TR[0] = *(adr), TR[1] = (WamWord) (adr) | 1, TR = TR + 2)
#endif
#undef Bind_UV
#define Bind_UV(adr, word)                                      \
  do                                                            \
    {                                                           \
      if (Word_Needs_Trailing(adr))                             \
        Trail_UV(adr);                                          \
      *(adr) = (word);                                          \
    }                                                           \
  while (0)
#undef Bind_OV
#define Bind_OV(adr, word)                                      \
  do                                                            \
    {                                                           \
      if (Word_Needs_Trailing(adr))                             \
        Trail_OV(adr);                                          \
      *(adr) = (word);                                          \
    }                                                           \
  while (0)

/* frames */
#undef CPE
#undef EE
#undef Y
#undef ALTB
#undef CPB
#undef EB
#undef BB
#undef HB
#undef TRB
#undef CSB
#undef AB
#define CPE(e) (*(WamCont *) ((WamWord *) (e) - 1))
#define EE(e) (*(WamWord **) ((WamWord *) (e) - 2))
#define Y(e, n) (((WamWord *) (e))[-3 - (n)])
#define ALTB(b) (*(CodePtr *) ((WamWord *) (b) - 1))
#define CPB(b) (*(WamCont *) ((WamWord *) (b) - 2))
#define EB(b) (*(WamWord **) ((WamWord *) (b) - 3))
#define BB(b) (*(WamWord **) ((WamWord *) (b) - 4))
#define HB(b) (*(WamWord **) ((WamWord *) (b) - 5))
#define TRB(b) (*(WamWord **) ((WamWord *) (b) - 6))
#define CSB(b) (*(WamWord **) ((WamWord *) (b) - 7))
#define AB(b, a) (((WamWord *) (b))[-8 - (a)])

typedef WamWord *Adr;
