/* ranges and lists, for the reference functions */
#include <limits.h>
#define EMPTY(r) ((r)->max = INT_MIN)
#define ALLOC(v) ((v) = (Vector) CS, CS = CS + pl_vec_size)
#define PUT(v, n) ((v)[(n) >> 6] |= (VecWord) 1 << ((n) & 63))

/* the members of a set of values, in order */
#define EACH(r, i)                                                                      \
  {                                                                                     \
    Vector w_, e_ = (r)->vec + pl_vec_size;                                             \
    i = 0;                                                                              \
    w_ = (r)->vec;                                                                      \
    do                                                                                  \
      {                                                                                 \
        VecWord m_ = *w_;                                                               \
        int b_;                                                                         \
        for (b_ = 1; b_ <= 64; b_++, i++)                                               \
          {                                                                             \
            if (m_ & 1)                                                                 \
              {
#define DONE                                                                            \
              }                                                                         \
            m_ = m_ >> 1;                                                               \
          }                                                                             \
      }                                                                                 \
    while (++w_ < e_);                                                                  \
  }


/* the members of a list, through word w and cell c; anything but a list is an error */
#define EACH_OF(list, c)                                                                \
  {                                                                                     \
    WamWord l_ = list, w_, t_;                                                          \
    WamWord *c;                                                                         \
    for (;;)                                                                            \
      {                                                                                 \
        DEREF(l_, w_, t_);                                                              \
        if (t_ == TAG_REF_MASK)                                                         \
          Pl_Err_Instantiation();                                                       \
        if (w_ == NIL_WORD)                                                             \
          break;                                                                        \
        if (t_ != TAG_LST_MASK)                                                         \
          Pl_Err_Type(pl_type_list, list);                                              \
        c = UnTag_LST(w_);
#define NEXT_OF(c)                                                                      \
        l_ = Cdr(c);                                                                    \
      }                                                                                 \
  }
