/* The sets of prime and of composite numbers (for checks/c10.py, checks/c08.py). */
#include "fd_prime_c.c"

void ref_Pl_Prime_Range(Range *r)
{
  if (pl_vec_size != prime_vec_size)
    Compute_Prime_Range();
  Pl_Range_Copy(r, &prime_range);
}

void ref_Pl_Not_Prime_Range(Range *r)
{
  if (pl_vec_size != prime_vec_size)
    Compute_Prime_Range();
  Pl_Range_Copy(r, &not_prime_range);
}

#define DEL Vector_Reset_Value

/* the sieve of Eratosthenes; the composite numbers are the complement */
void ref_Compute_Prime_Range(void)
{
  Vector p, q, end;
  int i, j;

  if (prime_range.vec != NULL)
    {
      Free(prime_range.vec);
      Free(not_prime_range.vec);
    }
  p = prime_range.vec = (Vector) Malloc(pl_vec_size * sizeof(VecWord));
  q = not_prime_range.vec = (Vector) Malloc(pl_vec_size * sizeof(VecWord));
  Pl_Vector_Full(p);
  DEL(p, 0);
  DEL(p, 1);
  i = 2;
  do
    {
      for (j = i * i; j <= pl_vec_max_integer; j = j + i)
        DEL(p, j);
      j = i;
      i = Pl_Vector_Next_After(p, i);
    }
  while (i > 0);
  prime_range.extra_cstr = not_prime_range.extra_cstr = TRUE;
  prime_range.min = 2;
  prime_range.max = j;
  not_prime_range.min = 0;
  not_prime_range.max = j >= pl_vec_max_integer ? pl_vec_max_integer - 1 : pl_vec_max_integer;
  end = p + pl_vec_size;
  do
    {
      *q++ = ~*p++;
    }
  while (p < end);
  prime_vec_size = pl_vec_size;
}
