/* What the functions used by the power and root constraints have to compute (for checks/c10.py, checks/c08.py). */
#include "oper_supp.c"

#define TOP ((unsigned) INTERVAL_MAX_INTEGER)

/* x ^ n, at most TOP */
unsigned ref_Pl_Power(unsigned x, unsigned n)
{
  unsigned r = 1, p = x;

  if (x == 1 || n == 0)
    return 1;
  if (x == 0)
    return 0;
  if (n > 31)
    return TOP;
  for (; n != 0; p = p * p)
    {
      if ((n & 1) != 0)
        {
          if (r > TOP / p)
            return TOP;
          r = r * p;
        }
      n = n >> 1;
      if (n != 0 && p > TOP / p)
        return TOP;
    }
  return r;
}

/* the greatest r such that r ^ n <= y: from 2 ^ (log2 y / n), Newton's iteration until it does not decrease */
unsigned ref_Pl_Nth_Root_Dn(unsigned y, unsigned n)
{
  unsigned r, s;
  int b;

  if (y == 0)
    return 0;
  if (n == 0)
    return TOP;
  if (n > 31)
    return 1;
  b = Pl_Most_Significant_Bit(y);
  if (n > (unsigned) (b + 1))
    return 1;
  s = 1 << (b / n);
  s = ((n - 1) * s + y / Pl_Power(s, n - 1)) / n;
  do
    {
      r = s;
      s = ((n - 1) * r + y / Pl_Power(r, n - 1)) / n;
    }
  while (r > s);
  return r;
}

unsigned ref_Pl_Nth_Root_Up(unsigned y, unsigned n)
{
  unsigned r;

  if (n == 0 || y == 0)
    return 0;
  r = Pl_Nth_Root_Dn(y, n);
  return Pl_Power(r, n) == y ? r : r + 1;
}

unsigned ref_Pl_Nth_Root_Exact(unsigned y, unsigned n)
{
  unsigned r;

  if (y == 0)
    return 0;
  r = Pl_Nth_Root_Dn(y, n);
  return Pl_Power(r, n) == y ? r : (unsigned) -1;
}

unsigned ref_Pl_Sqrt_Dn(unsigned y)
{
  unsigned r, s = y;

  if (y == 0)
    return 0;
  do
    {
      r = s;
      s = (y / r + r) >> 1;
    }
  while (r > s);
  return r;
}

unsigned ref_Pl_Sqrt_Up(unsigned y)
{
  unsigned r = Pl_Sqrt_Dn(y);

  return r * r == y ? r : r + 1;
}

unsigned ref_Pl_Sqrt_Exact(unsigned y)
{
  unsigned r = Pl_Sqrt_Dn(y);

  return r * r == y ? r : (unsigned) -1;
}

unsigned ref_Pl_Find_Expon_Dn(unsigned x, unsigned y)
{
  unsigned p;

  return x < 2 || y == 0 ? TOP : Find_Expon_General(x, y, &p);
}

unsigned ref_Pl_Find_Expon_Up(unsigned x, unsigned y)
{
  unsigned n, p;

  if (x < 2 || y == 0)
    return TOP;
  n = Find_Expon_General(x, y, &p);
  return p == y ? n : n + 1;
}

unsigned ref_Pl_Find_Expon_Exact(unsigned x, unsigned y)
{
  unsigned n, p;

  if (x < 2 || y == 0)
    return TOP;
  n = Find_Expon_General(x, y, &p);
  return p == y ? n : (unsigned) -1;
}

#include "fd_ref.h"

/* y = { f(v) | v in x } as far as it fits, in increasing order */
#define IMAGE(first, of_i)                                                              \
  int i;                                                                                \
  unsigned v = first;                                                                   \
  ALLOC(y->vec);                                                                        \
  if (v > (unsigned) pl_vec_max_integer)                                                \
    {                                                                                   \
      y->extra_cstr = TRUE;                                                             \
      EMPTY(y);                                                                         \
      return;                                                                           \
    }                                                                                   \
  Pl_Vector_Empty(y->vec);                                                              \
  y->extra_cstr = FALSE;                                                                \
  y->min = v;                                                                           \
  if (x->vec == NULL)                                                                   \
    for (i = x->min; i <= x->max; i++)                                                  \
      {                                                                                 \
        v = of_i;                                                                       \
        if (v > (unsigned) pl_vec_max_integer)                                          \
          break;                                                                        \
        PUT(y->vec, v);                                                                 \
      }                                                                                 \
  else                                                                                  \
    {                                                                                   \
      y->extra_cstr = x->extra_cstr;                                                    \
      EACH(x, i)                                                                        \
        v = of_i;                                                                       \
        if (v > (unsigned) pl_vec_max_integer)                                          \
          {                                                                             \
            y->max = v;                                                                 \
            return;                                                                     \
          }                                                                             \
        PUT(y->vec, v);                                                                 \
      DONE                                                                              \
    }                                                                                   \
  y->max = v;

void ref_Pl_Full_Var_Power_Coeff(Range *y, Range *x, int a) { IMAGE(Pl_Power(x->min, a), Pl_Power(i, a)) }
void ref_Pl_Full_Var_Power_2(Range *y, Range *x) { IMAGE(x->min * x->min, i * i) }

void ref_Pl_Full_Coeff_Power_Var(Range *y, int a, Range *x)
{
  unsigned v = Pl_Power(a, x->min), next = v;
  int i;

  ALLOC(y->vec);
  if (v > (unsigned) pl_vec_max_integer)
    {
      EMPTY(y);
      y->extra_cstr = TRUE;
      return;
    }
  Pl_Vector_Empty(y->vec);
  y->extra_cstr = FALSE;
  y->min = v;
  if (x->vec == NULL)
    for (i = x->min; i <= x->max; i++)
      {
        if (next > (unsigned) pl_vec_max_integer)
          break;
        v = next;
        PUT(y->vec, v);
        next *= a;
      }
  else
    {
      y->extra_cstr = x->extra_cstr;
      EACH(x, i)
        v = Pl_Power(a, i);
        if (v > (unsigned) pl_vec_max_integer)
          {
            y->max = v;
            return;
          }
        PUT(y->vec, v);
      DONE
    }
  y->max = v;
}

/* x = { f(v) | v in y, f(v) defined } */
#define PREIMAGE(of_i)                                                                  \
  int i, v = 0, first = -1;                                                             \
  ALLOC(x->vec);                                                                        \
  Pl_Vector_Empty(x->vec);                                                              \
  x->extra_cstr = y->extra_cstr;                                                        \
  if (y->vec == NULL)                                                                   \
    for (i = y->min; i <= y->max; i++)                                                  \
      {                                                                                 \
        v = of_i;                                                                       \
        if (v < 0)                                                                      \
          continue;                                                                     \
        if (first < 0)                                                                  \
          first = v;                                                                    \
        PUT(x->vec, v);                                                                 \
      }                                                                                 \
  else                                                                                  \
    {                                                                                   \
      EACH(y, i)                                                                        \
        v = of_i;                                                                       \
        if (v >= 0)                                                                     \
          {                                                                             \
            if (first < 0)                                                              \
              first = v;                                                                \
            PUT(x->vec, v);                                                             \
          }                                                                             \
      DONE                                                                              \
    }                                                                                   \
  x->max = v;                                                                           \
  x->min = first;

void ref_Pl_Full_Find_Expon(Range *x, int a, Range *y) { PREIMAGE(Pl_Find_Expon_Exact(a, i)) }
void ref_Pl_Full_Nth_Root(Range *x, Range *y, int a) { PREIMAGE(Pl_Nth_Root_Exact(i, a)) }
void ref_Pl_Full_Sqrt_Var(Range *x, Range *y) { PREIMAGE(Pl_Sqrt_Exact(i)) }

void ref_Pl_Full_Var_Div_Var(Range *x, Range *z, Range *y)
{
  if (y->min != 0)
    {
      Pl_Range_Copy(x, z);
      Pl_Range_Div_Range(x, y);
      return;
    }
  x->extra_cstr = FALSE;
  x->vec = NULL;
  x->min = 0;
  x->max = INTERVAL_MAX_INTEGER;
}

/* n = the greatest exponent such that x ^ n <= y, from the powers x ^ (2 ^ k) <= y; *pxn = x ^ n */
unsigned ref_Find_Expon_General(unsigned x, unsigned y, unsigned *pxn)
{
  static unsigned txp[32];
  unsigned *top = txp, p = x, n = 0, r = 1;

  while (p <= y)
    {
      *top++ = p;
      if (y / p < p)
        break;
      p *= p;
    }
  while (--top >= txp)
    {
      p = *top;
      n *= 2;
      if (p <= y)
        {
          r *= p;
          y /= p;
          n |= 1;
        }
    }
  *pxn = r;
  return n;
}
