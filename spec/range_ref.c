/* What the operations on FD ranges have to do: reference functions for checks/c10.py.
   The layout of Range and the engine's globals come from the headers of the program. */
#include <string.h>
#include "engine_pl.h"
#include "engine_fd.h"

#define BITS 64
#define WORD(n) ((VecWord) (n) >> 6)
#define BIT(n) ((VecWord) 1 << ((VecWord) (n) & 63))
#define HAS(v, n) ((v[WORD(n)] & BIT(n)) != 0)
#define EMPTY(r) ((r)->min > (r)->max)
#define LO(x, y) ((x) <= (y) ? (x) : (y))
#define HI(x, y) ((x) >= (y) ? (x) : (y))

static void alloc(Range *r)
{
  r->vec = (Vector) CS;
  CS += pl_vec_size;
}

/* r keeps the elements a vector can represent and becomes sparse */
static void sparse(Range *r)
{
  if (r->vec == NULL)
    alloc(r);
  r->min = HI(r->min, 0);
  r->extra_cstr = (r->max > pl_vec_max_integer);
  r->max = LO(r->max, pl_vec_max_integer);
  if (r->min <= r->max)
    Pl_Vector_From_Interval(r->vec, r->min, r->max);
}

static void copy(Range *r, Range *s)
{
  r->extra_cstr = s->extra_cstr;
  r->min = s->min;
  r->max = s->max;
  if (s->vec == NULL)
    r->vec = NULL;
  else
    {
      if (r->vec == NULL)
        alloc(r);
      Pl_Vector_Copy(r->vec, s->vec);
    }
}

static void none(Range *r) { r->max = (int) 0x80000000; }

void ref_Pl_Range_Becomes_Sparse(Range *r) { sparse(r); }
void ref_Pl_Range_Copy(Range *r, Range *s) { copy(r, s); }

Bool ref_Pl_Range_Test_Value(Range *r, int n)
{
  if (n < r->min || n > r->max)
    return FALSE;
  if (r->vec == NULL || n == r->min || n == r->max)
    return TRUE;
  return HAS(r->vec, n);
}

int ref_Pl_Range_Nb_Elem(Range *r)
{
  return r->vec == NULL ? r->max - r->min + 1 : Pl_Vector_Nb_Elem(r->vec);
}

int ref_Pl_Range_Ith_Elem(Range *r, int i)
{
  if (EMPTY(r))
    return -1;
  if (r->vec != NULL)
    return Pl_Vector_Ith_Elem(r->vec, i);
  return i >= 1 && i <= r->max - r->min + 1 ? r->min + i - 1 : -1;
}

int ref_Pl_Range_Next_After(Range *r, int n)
{
  if (EMPTY(r))
    return -1;
  if (r->vec != NULL)
    return Pl_Vector_Next_After(r->vec, n);
  return n >= r->max ? -1 : n + 1 < r->min ? r->min : n + 1;
}

int ref_Pl_Range_Next_Before(Range *r, int n)
{
  if (EMPTY(r))
    return -1;
  if (r->vec != NULL)
    return Pl_Vector_Next_Before(r->vec, n);
  return n <= r->min ? -1 : n - 1 > r->max ? r->max : n - 1;
}

void ref_Pl_Range_Set_Value(Range *r, int n)
{
  if (EMPTY(r))
    {
      r->extra_cstr = FALSE;
      r->min = r->max = n;
      r->vec = NULL;
      return;
    }
  if (r->vec == NULL)
    {
      if (n >= r->min && n <= r->max)
        return;
      if (n == r->min - 1)
        {
          r->min = n;
          return;
        }
      if (n == r->max + 1)
        {
          r->max = n;
          return;
        }
      sparse(r);
      if (n < 0 || n > pl_vec_max_integer)
        r->extra_cstr = TRUE;
      else
        {
          r->vec[WORD(n)] |= BIT(n);
          Pl_Range_From_Vector(r);
        }
      return;
    }
  if (n < 0 || n > pl_vec_max_integer)
    {
      r->extra_cstr = TRUE;
      return;
    }
  r->vec[WORD(n)] |= BIT(n);
  if (n < r->min || n > r->max)
    Pl_Range_From_Vector(r);
}

void ref_Pl_Range_Reset_Value(Range *r, int n)
{
  if (EMPTY(r) || n < r->min || n > r->max)
    return;
  if (r->min == r->max)
    {
      none(r);
      return;
    }
  if (r->vec == NULL)
    {
      if (n == r->min)
        r->min = n + 1;
      else if (n == r->max)
        r->max = n - 1;
      else
        {
          sparse(r);
          if (n >= 0 && n <= pl_vec_max_integer)
            r->vec[WORD(n)] &= ~BIT(n);
        }
      return;
    }
  if (n < 0 || n > pl_vec_max_integer)
    return;
  r->vec[WORD(n)] &= ~BIT(n);
  if (n == r->min || n == r->max)
    Pl_Range_From_Vector(r);
}

/* both operands sparse: s itself, or a sparse copy of it in t */
static Range *both(Range *r, Range *s, Range *t)
{
  if (r->vec == NULL)
    sparse(r);
  if (s->vec == NULL)
    {
      t->vec = NULL;
      copy(t, s);
      sparse(t);
      s = t;
    }
  return s;
}

void ref_Pl_Range_Union(Range *r, Range *s)
{
  Range t;
  Bool extra;

  if (r->vec == NULL && s->vec == NULL && !EMPTY(r) && !EMPTY(s) && s->min <= r->max + 1 && r->min <= s->max + 1)
    {
      r->min = LO(r->min, s->min);
      r->max = HI(r->max, s->max);
      return;
    }
  s = both(r, s, &t);
  extra = r->extra_cstr | s->extra_cstr;
  if (EMPTY(r))
    {
      copy(r, s);
      r->extra_cstr = extra;
      return;
    }
  r->extra_cstr = extra;
  if (EMPTY(s))
    return;
  r->min = LO(r->min, s->min);
  r->max = HI(r->max, s->max);
  Pl_Vector_Union(r->vec, s->vec);
}

void ref_Pl_Range_Inter(Range *r, Range *s)
{
  Range t;

  if (r->vec == NULL && s->vec == NULL)
    {
      r->min = HI(r->min, s->min);
      r->max = LO(r->max, s->max);
      return;
    }
  s = both(r, s, &t);
  r->extra_cstr &= s->extra_cstr;
  if (EMPTY(r))
    return;
  if (EMPTY(s))
    none(r);
  else
    {
      Pl_Vector_Inter(r->vec, s->vec);
      Pl_Range_From_Vector(r);
    }
}

void ref_Pl_Range_Compl(Range *r)
{
  if (r->vec == NULL)
    {
      if (EMPTY(r))
        {
          r->min = 0;
          r->max = INTERVAL_MAX_INTEGER;
          return;
        }
      if (r->min <= 0)
        {
          if (r->max >= INTERVAL_MAX_INTEGER)
            none(r);
          else
            {
              r->min = r->max + 1;
              r->max = INTERVAL_MAX_INTEGER;
            }
          return;
        }
      if (r->max >= INTERVAL_MAX_INTEGER)
        {
          r->max = r->min - 1;
          r->min = 0;
          return;
        }
      sparse(r);
    }
  r->extra_cstr = TRUE;
  if (EMPTY(r))
    {
      r->min = 0;
      r->max = pl_vec_max_integer;
      Pl_Vector_Full(r->vec);
    }
  else
    {
      Pl_Vector_Compl(r->vec);
      Pl_Range_From_Vector(r);
    }
}

void ref_Pl_Range_Add_Range(Range *r, Range *s)
{
  Range t;

  if (EMPTY(r))
    return;
  if (EMPTY(s))
    {
      none(r);
      return;
    }
  if (r->vec == NULL && s->vec == NULL)
    {
      r->min += s->min;
      r->max += s->max;
      return;
    }
  s = both(r, s, &t);
  Pl_Vector_Add_Vector(r->vec, s->vec);
  r->min += s->min;
  r->max += s->max;
  r->extra_cstr |= s->extra_cstr | (r->max > pl_vec_max_integer);
  if (r->extra_cstr || r->min < 0)
    Pl_Range_From_Vector(r);
}

void ref_Pl_Range_Sub_Range(Range *r, Range *s)
{
  Range t;

  if (EMPTY(r))
    return;
  if (EMPTY(s))
    {
      none(r);
      return;
    }
  if (r->vec == NULL && s->vec == NULL)
    {
      r->min -= s->max;
      r->max -= s->min;
      return;
    }
  s = both(r, s, &t);
  Pl_Vector_Sub_Vector(r->vec, s->vec);
  r->min -= s->max;
  r->max -= s->min;
  r->extra_cstr |= s->extra_cstr;
  if (r->extra_cstr || r->min < 0)
    Pl_Range_From_Vector(r);
}

#define POINTWISE(op)                                         \
void ref_Pl_Range_##op##_Range(Range *r, Range *s)            \
{                                                             \
  Range t;                                                    \
                                                              \
  if (EMPTY(r))                                               \
    return;                                                   \
  if (EMPTY(s))                                               \
    {                                                         \
      none(r);                                                \
      return;                                                 \
    }                                                         \
  s = both(r, s, &t);                                         \
  Pl_Vector_##op##_Vector(r->vec, s->vec);                    \
  r->extra_cstr |= s->extra_cstr;                             \
  Pl_Range_From_Vector(r);                                    \
}
POINTWISE(Mul)
POINTWISE(Div)
POINTWISE(Mod)

void ref_Pl_Range_Add_Value(Range *r, int n)
{
  if (n == 0 || EMPTY(r))
    return;
  if (r->vec == NULL)
    {
      r->min += n;
      r->max += n;
      return;
    }
  Pl_Vector_Add_Value(r->vec, n);
  r->min += n;
  r->max += n;
  r->extra_cstr |= (r->max > pl_vec_max_integer);
  if (r->extra_cstr || r->min < 0)
    Pl_Range_From_Vector(r);
}

void ref_Pl_Range_Mul_Value(Range *r, int n)
{
  if (n == 1 || EMPTY(r))
    return;
  if (r->vec == NULL)
    sparse(r);
  Pl_Vector_Mul_Value(r->vec, n);
  r->min *= n;
  r->max *= n;
  r->extra_cstr |= (r->max > pl_vec_max_integer);
  if (r->extra_cstr)
    Pl_Range_From_Vector(r);
}

void ref_Pl_Range_Div_Value(Range *r, int n)
{
  if (n == 1 || EMPTY(r))
    return;
  if (r->vec == NULL)
    sparse(r);
  Pl_Vector_Div_Value(r->vec, n);
  r->min = (r->min + n - 1) / n;
  r->max = r->max / n;
  r->extra_cstr |= (r->max > pl_vec_max_integer);
  if (r->extra_cstr)
    Pl_Range_From_Vector(r);
}

void ref_Pl_Range_Mod_Value(Range *r, int n)
{
  Range t;

  if (EMPTY(r))
    return;
  if (n < 0)
    n = -n;
  if (r->vec != NULL)
    {
      Pl_Vector_Mod_Value(r->vec, n);
      Pl_Range_From_Vector(r);
      return;
    }
  if (r->min >= 0 || r->max <= 0)
    {
      int neg = (r->min < 0);

      if (r->max - r->min + 1 >= n)             /* every remainder */
        {
          r->min = neg ? -(n - 1) : 0;
          r->max = neg ? 0 : n - 1;
          return;
        }
      r->min = r->min % n;
      r->max = r->max % n;
      if (r->min > r->max)                      /* two intervals */
        {
          t.extra_cstr = FALSE;
          t.min = neg ? -(n - 1) : 0;
          t.max = r->max;
          t.vec = NULL;
          r->max = neg ? 0 : n - 1;
          Pl_Range_Union(r, &t);
        }
      return;
    }
  r->min = HI(r->min, -n + 1);
  r->max = LO(r->max, n - 1);
}

Bool ref_Pl_Range_Test_Null_Inter(Range *r, Range *s)
{
  int i;

  if (r->min > s->max || s->min > r->max)
    return TRUE;
  if (r->min == s->min || r->min == s->max || r->max == s->min || r->max == s->max)
    return FALSE;
  if (r->vec != NULL && s->vec != NULL)
    return Pl_Vector_Test_Null_Inter(s->vec, r->vec);
  if ((r->min >= s->min && r->max >= s->max) || (s->min >= r->min && s->max >= r->max))
    return FALSE;
  if (r->vec == NULL && s->vec == NULL)
    return FALSE;
  if (r->vec != NULL)
    {
      Range *t = r;
      r = s;
      s = t;
      if ((r->min >= s->min && r->max >= s->max) || (s->min >= r->min && s->max >= r->max))
        return FALSE;
    }
  if (r->min <= s->min)
    return FALSE;
  for (i = r->min; i <= r->max; i++)
    if (HAS(s->vec, i))
      return FALSE;
  return TRUE;
}

/* ---------------------------------------------------------------- vectors: one bit per element, 0..pl_vec_max_integer */

#define WORDS(i) for (i = 0; i < pl_vec_size; i++)

void ref_Pl_Define_Vector_Size(int max_val)
{
  pl_vec_size = max_val / 64 + 1;
  pl_vec_max_integer = (max_val / 64 + 1) * 64 - 1;
}

void ref_Pl_Vector_From_Interval(Vector v, int min, int max)
{
  Vector p = v, lo = v + WORD(min), hi = v + WORD(max), end = v + pl_vec_size;

  while (p != lo)
    *p++ = 0;
  while (p <= hi)
    *p++ = (VecWord) -1;
  while (p != end)
    *p++ = 0;
  *lo &= (VecWord) -1 << ((VecWord) min & 63);
  *hi &= (VecWord) -1 >> (63 - ((VecWord) max & 63));
}

int ref_Pl_Vector_Nb_Elem(Vector v)
{
  int i, n = 0;

  WORDS(i)
    n += __builtin_popcountl(v[i]);
  return n;
}

void ref_Pl_Vector_Empty(Vector v) { int i; WORDS(i) v[i] = 0; }
void ref_Pl_Vector_Full(Vector v) { int i; WORDS(i) v[i] = (VecWord) -1; }
void ref_Pl_Vector_Copy(Vector v, Vector w) { int i; WORDS(i) v[i] = w[i]; }
void ref_Pl_Vector_Union(Vector v, Vector w) { int i; WORDS(i) v[i] = v[i] | w[i]; }
void ref_Pl_Vector_Inter(Vector v, Vector w) { int i; WORDS(i) v[i] = v[i] & w[i]; }
void ref_Pl_Vector_Compl(Vector v) { int i; WORDS(i) v[i] = ~v[i]; }

Bool ref_Pl_Vector_Test_Null_Inter(Vector v, Vector w)
{
  int i;

  WORDS(i)
    if (v[i] & w[i])
      return FALSE;
  return TRUE;
}

#define EACH(v, x)                                            \
{ Vector p_ = v, e_ = v + pl_vec_size; VecWord w_; int b_;    \
  x = 0;                                                      \
  do                                                          \
    for (w_ = *p_, b_ = 0; b_ < 64; b_++, x++, w_ >>= 1)      \
      if (w_ & 1)                                             \
        {
#define EACH_END                                              \
        }                                                     \
  while (++p_ < e_);                                          \
}

int ref_Pl_Vector_Ith_Elem(Vector v, int i)
{
  int x;

  if (i <= 0)
    return -1;
  EACH(v, x)
    if (--i == 0)
      return x;
  EACH_END
  return -1;
}

#define DEST                                                  \
  Vector a;                                                   \
  a = (Vector) CS;                                            \
  CS += pl_vec_size;                                          \
  Pl_Vector_Copy(a, v);                                       \
  Pl_Vector_Empty(v);

#define ADD(v, n) (v[WORD(n)] |= BIT(n))

/* z goes up (or down) with y: past the limit no other y gives a representable z */
#define SETS(op, over)                                        \
void ref_Pl_Vector_##op##_Vector(Vector v, Vector w)          \
{                                                             \
  int x, y, z;                                                \
  DEST                                                        \
  EACH(a, x)                                                  \
    EACH(w, y)                                                \
      over                                                    \
      ADD(v, z);                                              \
    EACH_END                                                  \
    next:;                                                    \
  EACH_END                                                    \
}
SETS(Add, { z = x + y; if (z > pl_vec_max_integer) goto next; })
SETS(Sub, { z = x - y; if (z < 0) goto next; })
SETS(Mul, { z = x * y; if (z > pl_vec_max_integer) goto next; })

void ref_Pl_Vector_Div_Vector(Vector v, Vector w)
{
  int x, y;
  DEST
  EACH(a, x)
    if (x == 0)
      ADD(v, 0);
    else
      {
        EACH(w, y)
          if (y != 0 && x % y == 0)
            {
              int z = x / y;
              ADD(v, z);
            }
        EACH_END
      }
  EACH_END
}

void ref_Pl_Vector_Mod_Vector(Vector v, Vector w)
{
  int x, y;
  DEST
  EACH(a, x)
    EACH(w, y)
      if (y != 0)
        {
          int z = x % y;
          ADD(v, z);
        }
    EACH_END
  EACH_END
}

void ref_Pl_Vector_Mul_Value(Vector v, int n)
{
  int x, z;
  DEST
  EACH(a, x)
    z = x * n;
    if (z < 0 || z > pl_vec_max_integer)
      return;
    ADD(v, z);
  EACH_END
}

void ref_Pl_Vector_Div_Value(Vector v, int n)
{
  int x;
  DEST
  if (n == 0)
    return;
  EACH(a, x)
    if (x % n == 0)
      {
        int z = x / n;
        ADD(v, z);
      }
  EACH_END
}

void ref_Pl_Vector_Mod_Value(Vector v, int n)
{
  int x;
  DEST
  if (n == 0)
    return;
  EACH(a, x)
    {
      int z = x % n;
      if (z >= 0 && z <= pl_vec_max_integer)
        ADD(v, z);
    }
  EACH_END
}

void ref_Pl_Vector_Add_Value(Vector v, int n)
{
  int w, b, i, j;
  VecWord carry, next;

  if (n >= 0)
    {
      w = WORD(n);
      b = (VecWord) n & 63;
      if (w != 0)                               /* whole words up, from the top */
        {
          for (i = pl_vec_size - 1, j = i - w; j >= 0; i--, j--)
            v[i] = v[j];
          for (; i >= 0; i--)
            v[i] = 0;
        }
      if (b != 0)
        for (carry = 0, i = w; i < pl_vec_size; i++)
          {
            next = v[i] >> (64 - b);
            v[i] = (v[i] << b) | carry;
            carry = next;
          }
    }
  else
    {
      w = WORD(-n);
      b = (VecWord) -n & 63;
      if (w != 0)                               /* whole words down, from the bottom */
        {
          for (i = 0, j = w; j < pl_vec_size; i++, j++)
            v[i] = v[j];
          for (; i < pl_vec_size; i++)
            v[i] = 0;
        }
      if (b != 0)
        for (carry = 0, i = pl_vec_size - 1 - w; i >= 0; i--)
          {
            next = v[i] << (64 - b);
            v[i] = (v[i] >> b) | carry;
            carry = next;
          }
    }
}

int ref_Pl_Vector_Next_After(Vector v, int n)
{
  Vector p, end = v + pl_vec_size;
  VecWord w;

  if (n > pl_vec_max_integer)
    return -1;
  if (n < 0)
    {
      p = v;
      w = *p;
    }
  else
    {
      p = v + WORD(n);
      w = ((VecWord) n & 63) == 63 ? 0 : *p & ~(((PlLong) 1 << (((VecWord) n & 63) + 1)) - 1);
    }
  while (w == 0)
    {
      if (++p >= end)
        return -1;
      w = *p;
    }
  return Word_No_And_Bit_No(p - v, __builtin_ctzl(w));
}

int ref_Pl_Vector_Next_Before(Vector v, int n)
{
  Vector p;
  VecWord w;

  if (n < 0)
    return -1;
  if (n > pl_vec_max_integer)
    {
      p = v + pl_vec_size - 1;
      w = *p;
    }
  else
    {
      p = v + WORD(n);
      w = *p & (((PlLong) 1 << ((VecWord) n & 63)) - 1);
    }
  while (w == 0)
    {
      if (--p < v)
        return -1;
      w = *p;
    }
  return Word_No_And_Bit_No(p - v, 63 - __builtin_clzl(w));
}

/* the bounds of a sparse range that is not empty are its first and last element */
void ref_Pl_Range_From_Vector(Range *r)
{
  Vector p = r->vec, q;

  while (*p == 0)
    {
      if (p >= r->vec + pl_vec_size)
        {
          none(r);
          return;
        }
      p++;
    }
  q = r->vec + pl_vec_size - 1;
  while (*q == 0)
    q--;
  r->min = Word_No_And_Bit_No(p - r->vec, __builtin_ctzl(*p));
  r->max = Word_No_And_Bit_No(q - r->vec, 63 - __builtin_clzl(*q));
}
