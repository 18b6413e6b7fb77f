/* What the functions of misc.c are to do. */
#include "gp_config.h"
#include "../Tools/ctor.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <mcheck.h>
#include "engine_pl.h"
#include "../Linedit/linedit.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define ERR_ALLOC_FAULT "Memory allocation fault (%s) in %s:%d"
void * Pl_Malloc_Check(size_t size, char *src_file, int src_line);
void * Pl_Calloc_Check(size_t nb, size_t size, char *src_file, int src_line);
void * Pl_Realloc_Check(void *ptr, size_t size, char *src_file, int src_line);
void Pl_Free_Check(void *ptr, char *src_file, int src_line);
char * Pl_Strdup_Check(char *str, char *src_file, int src_line);
void Pl_Extend_HTBL_If_Needed(void **htbl);
void Pl_Extend_Array(char **ptbl, int *nb_elem, int elem_size, Bool bzero);
void Pl_Exit_With_Value(int ret_val);
void Pl_Fatal_Error(char *format, ...);
int Pl_LSB(PlLong x);
int Pl_MSB(PlLong x);
int Pl_Popcount(PlLong x);
void * Pl_Dummy_Ptr(void *p);


void * ref_Pl_Malloc_Check(size_t size, char *src_file, int src_line)
{
  void *m = malloc(size);

  if (m == NULL)
    Pl_Fatal_Error(ERR_ALLOC_FAULT, "malloc", src_file, src_line);

  return m;
}

void * ref_Pl_Calloc_Check(size_t nb, size_t size, char *src_file, int src_line)
{
  void *m = calloc(nb, size);

  if (m == NULL)
    Pl_Fatal_Error(ERR_ALLOC_FAULT, "calloc", src_file, src_line);

  return m;
}

void * ref_Pl_Realloc_Check(void *ptr, size_t size, char *src_file, int src_line)
{
  void *m = realloc(ptr, size);

  if (m == NULL)
    Pl_Fatal_Error(ERR_ALLOC_FAULT, "realloc", src_file, src_line);

  return m;
}

void ref_Pl_Free_Check(void *ptr, char *src_file, int src_line)
{
  free(ptr);
}

char * ref_Pl_Strdup_Check(char *str, char *src_file, int src_line)
{
  char *s = strdup(str);

  if (s == NULL)
    Pl_Fatal_Error(ERR_ALLOC_FAULT, "strdup", src_file, src_line);

  return s;
}

void ref_Pl_Extend_HTBL_If_Needed(void **htbl)
{
  int size = Pl_HTBL_Table_Size(*htbl);

  if (Pl_HTBL_Nb_Elements(*htbl) >= size)
    *htbl = Pl_HTBL_Realloc_Table(*htbl, size * 2);
}

void ref_Pl_Extend_Array(char **ptbl, int *nb_elem, int elem_size, Bool bzero)
{
  int old_nb_elem = *nb_elem;
  int new_nb_elem = old_nb_elem * 2;
  char *new_tbl;

  new_tbl = Realloc(*ptbl, new_nb_elem * elem_size);
  if (bzero)
    memset(new_tbl + (old_nb_elem * elem_size), 0,
	   (new_nb_elem - old_nb_elem) * elem_size);

  *ptbl = new_tbl;
  *nb_elem = new_nb_elem;
}

void ref_Pl_Exit_With_Value(int ret_val)
{

  if (pl_le_hook_exit_process)
    (*pl_le_hook_exit_process)(ret_val);

  exit(ret_val);
}

void ref_Pl_Fatal_Error(char *format, ...)
{
  va_list arg_ptr;
  char buff[1024];

  va_start(arg_ptr, format);
  vsprintf(buff, format, arg_ptr);
  va_end(arg_ptr);

  if (pl_le_hook_message_box)
    (*pl_le_hook_message_box)("Fatal Error", buff, 0);
  else

    fprintf(stderr, "\nFatal Error: %s\n", buff);

  Pl_Exit_With_Value(1);
}

int ref_Pl_LSB(PlLong x)
{
  int bit = 0;

  if (x << 32 == 0)
    bit += 32, x >>= 32;

  if (x << (WORD_SIZE - 32 + 16) == 0)
    bit += 16, x >>= 16;

  if (x << (WORD_SIZE - 32 + 16 + 8) == 0)
    bit += 8, x >>= 8;

  if (x << (WORD_SIZE - 32 + 16 + 8 + 4) == 0)
    bit += 4, x >>= 4;

  if (x << (WORD_SIZE - 32 + 16 + 8 + 4 + 2) == 0)
    bit += 2, x >>= 2;

  if (x << (WORD_SIZE - 32 + 16 + 8 + 4 + 2 + 1) == 0)
    bit += 1;

  return bit;
}

int ref_Pl_MSB(PlLong x)
{
  int bit = WORD_SIZE - 1;

  if (x >> 32 == 0)
    bit -= 32, x <<= 32;

  if (x >> (WORD_SIZE - 32 + 16) == 0)
    bit -= 16, x <<= 16;

  if (x >> (WORD_SIZE - 32 + 16 + 8) == 0)
    bit -= 8, x <<= 8;

  if (x >> (WORD_SIZE - 32 + 16 + 8 + 4) == 0)
    bit -= 4, x <<= 4;

  if (x >> (WORD_SIZE - 32 + 16 + 8 + 4 + 2) == 0)
    bit -= 2, x <<= 2;

  if (x >> (WORD_SIZE - 32 + 16 + 8 + 4 + 2 + 1) == 0)
    bit -= 1;

  return bit;
}

int ref_Pl_Popcount(PlLong x)
{
  static int nb_bits_in_byte[256] =
    { 0, 1, 1, 2, 1, 2, 2, 3, 1, 2, 2, 3, 2, 3, 3, 4, 1, 2, 2, 3, 2, 3, 3,
      4, 2, 3, 3, 4, 3, 4, 4, 5,
      1, 2, 2, 3, 2, 3, 3, 4, 2, 3, 3, 4, 3, 4, 4, 5, 2, 3, 3, 4, 3, 4, 4, 5,
      3, 4, 4, 5, 4, 5, 5, 6,
      1, 2, 2, 3, 2, 3, 3, 4, 2, 3, 3, 4, 3, 4, 4, 5, 2, 3, 3, 4, 3, 4, 4, 5,
      3, 4, 4, 5, 4, 5, 5, 6,
      2, 3, 3, 4, 3, 4, 4, 5, 3, 4, 4, 5, 4, 5, 5, 6, 3, 4, 4, 5, 4, 5, 5, 6,
      4, 5, 5, 6, 5, 6, 6, 7,
      1, 2, 2, 3, 2, 3, 3, 4, 2, 3, 3, 4, 3, 4, 4, 5, 2, 3, 3, 4, 3, 4, 4, 5,
      3, 4, 4, 5, 4, 5, 5, 6,
      2, 3, 3, 4, 3, 4, 4, 5, 3, 4, 4, 5, 4, 5, 5, 6, 3, 4, 4, 5, 4, 5, 5, 6,
      4, 5, 5, 6, 5, 6, 6, 7,
      2, 3, 3, 4, 3, 4, 4, 5, 3, 4, 4, 5, 4, 5, 5, 6, 3, 4, 4, 5, 4, 5, 5, 6,
      4, 5, 5, 6, 5, 6, 6, 7,
      3, 4, 4, 5, 4, 5, 5, 6, 4, 5, 5, 6, 5, 6, 6, 7, 4, 5, 5, 6, 5, 6, 6, 7,
      5, 6, 6, 7, 6, 7, 7, 8
    };

  int n = 0;
  n += nb_bits_in_byte[x & 0xFF];
  n += nb_bits_in_byte[(x >> 8) & 0xFF];
  n += nb_bits_in_byte[(x >> 16) & 0xFF];
  n += nb_bits_in_byte[(x >> 24) & 0xFF];

  n += nb_bits_in_byte[(x >> 32) & 0xFF];
  n += nb_bits_in_byte[(x >> 40) & 0xFF];
  n += nb_bits_in_byte[(x >> 48) & 0xFF];
  n += nb_bits_in_byte[(x >> 56) & 0xFF];

  return n;
}

void * ref_Pl_Dummy_Ptr(void *p)
{
  return p;
}
