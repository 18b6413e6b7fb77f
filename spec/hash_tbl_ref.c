/* What the functions of hash_tbl.c are to do. */
#include "gp_config.h"
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "hash_tbl.h"
#include "engine_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

HashNode *Hash_Locate(HashNode *t, int tbl_size, PlLong key);

#define HASH_STATIC_SIZE 3

#define Tbl_Size(t) (((int *)(t))[0])

#define Elem_Size(t) (((int *)(t))[1])

#define Nb_Elem(t) (((int *)(t))[2])

#define The_Array(t) (((HashNode *) (t)) + HASH_STATIC_SIZE)

#define Hash_Function(k,size) ((uintptr_t) (k) % (size))
void * Pl_HTBL_Alloc_Table(int tbl_size, int elem_size);
void * Pl_HTBL_Realloc_Table(void *htbl, int new_tbl_size);
void Pl_HTBL_Free_Table(void *htbl);
void Pl_HTBL_Delete_All(void *htbl);
void * Pl_HTBL_Insert(void *htbl, void *elem, Bool replace);
void * Pl_HTBL_Find(void *htbl, PlLong key);
void * Pl_HTBL_Delete(void *htbl, PlLong key);
HashNode * Hash_Locate(HashNode *t, int tbl_size, PlLong key);
void * Pl_HTBL_First(void *htbl, HashScan *scan);
void * Pl_HTBL_Next(HashScan *scan);
int Pl_HTBL_Table_Size(void *htbl);
int Pl_HTBL_Nb_Elements(void *htbl);


void * ref_Pl_HTBL_Alloc_Table(int tbl_size, int elem_size)
{
  void *htbl;

  htbl = Calloc(HASH_STATIC_SIZE + tbl_size, sizeof(HashNode));

  if (tbl_size < 1)
    tbl_size = 1;

  Tbl_Size(htbl) = tbl_size;
  Elem_Size(htbl) = elem_size;
  Nb_Elem(htbl) = 0;

  return htbl;
}

void * ref_Pl_HTBL_Realloc_Table(void *htbl, int new_tbl_size)
{
  int tbl_size = Tbl_Size(htbl);
  int elem_size = Elem_Size(htbl);
  HashNode *t = The_Array(htbl);
  HashNode *end_t = t + tbl_size;
  HashNode p, p1;
  HashNode *prev;
  void *new_htbl;
  HashNode *new_t;

  if ((new_htbl = Pl_HTBL_Alloc_Table(new_tbl_size, elem_size)) == NULL)
    return NULL;

  Nb_Elem(new_htbl) = Nb_Elem(htbl);

  new_t = The_Array(new_htbl);

  do
    {
      p = *t;
      while (p)
	{
	  prev = Hash_Locate(new_t, new_tbl_size, p->key);
	  p1 = p;
	  p = p->next;
	  *prev = p1;
	  p1->next = NULL;
	}
    }
  while (++t < end_t);

  Free(htbl);

  return new_htbl;
}

void ref_Pl_HTBL_Free_Table(void *htbl)
{
  int tbl_size = Tbl_Size(htbl);
  HashNode *t = The_Array(htbl);
  HashNode *end_t = t + tbl_size;
  HashNode p, p1;

  do
    {
      p = *t;
      while (p)
	{
	  p1 = p;
	  p = p->next;
	  Free(p1);
	}
    }
  while (++t < end_t);

  Free(htbl);
}

void ref_Pl_HTBL_Delete_All(void *htbl)
{
  int tbl_size = Tbl_Size(htbl);
  HashNode *t = The_Array(htbl);
  HashNode *end_t = t + tbl_size;
  HashNode p, p1;

  do
    {
      p = *t;
      while (p)
	{
	  p1 = p;
	  p = p->next;
	  Free(p1);
	}

      *t = NULL;
    }
  while (++t < end_t);

  Nb_Elem(htbl) = 0;
}

void * ref_Pl_HTBL_Insert(void *htbl, void *elem, Bool replace)
{
  int tbl_size = Tbl_Size(htbl);
  int elem_size = Elem_Size(htbl);
  HashNode *t = The_Array(htbl);
  PlLong key = *(PlLong *) elem;
  HashNode *prev;
  HashNode p;

  prev = Hash_Locate(t, tbl_size, key);
  p = *prev;

  if (p == NULL)
    {
      p = Malloc(sizeof(struct hash_node) - sizeof(PlLong) + elem_size);

      p->next = NULL;
      Nb_Elem(htbl)++;
      *prev = p;
    }
  else if (!replace)
    goto finish;

  memcpy((void *) &(p->key), elem, elem_size);

finish:
  return (void *) &(p->key);
}

void * ref_Pl_HTBL_Find(void *htbl, PlLong key)
{
  int tbl_size = Tbl_Size(htbl);
  HashNode *t = The_Array(htbl);
  HashNode *prev;
  HashNode p;

  prev = Hash_Locate(t, tbl_size, key);
  p = *prev;

  if (p == NULL)
    return NULL;

  return (void *) &(p->key);
}

void * ref_Pl_HTBL_Delete(void *htbl, PlLong key)
{
  int tbl_size = Tbl_Size(htbl);
  HashNode *t = The_Array(htbl);
  HashNode *prev;
  HashNode p;

  prev = Hash_Locate(t, tbl_size, key);
  p = *prev;

  if (p == NULL)
    return NULL;

  *prev = p->next;
  Free(p);
  Nb_Elem(htbl)--;

  return htbl;
}

HashNode * ref_Hash_Locate(HashNode *t, int tbl_size, PlLong key)
{
  int n = Hash_Function(key, tbl_size);
  HashNode p;

  t += n;

  for (p = *t; p; p = p->next)
    {
      if (p->key == key)
	break;

      t = &p->next;
    }

  return t;
}

void * ref_Pl_HTBL_First(void *htbl, HashScan *scan)
{
  int tbl_size = Tbl_Size(htbl);
  HashNode *t = The_Array(htbl);
  HashNode *end_t = t + tbl_size;

  scan->end_t = end_t;
  scan->cur_t = t;
  scan->cur_p = *t;

  return Pl_HTBL_Next(scan);
}

void * ref_Pl_HTBL_Next(HashScan *scan)
{
  HashNode *t;
  HashNode *end_t;
  HashNode p;

  p = scan->cur_p;
  if (p)
    {
      scan->cur_p = p->next;
      return (void *) &(p->key);
    }

  t = scan->cur_t;
  end_t = scan->end_t;

  while (++t < end_t)
    {
      p = *t;
      if (p)
	{
	  scan->cur_t = t;
	  scan->cur_p = p->next;
	  return (void *) &(p->key);
	}
    }

  return NULL;
}

int ref_Pl_HTBL_Table_Size(void *htbl)
{
  return Tbl_Size(htbl);
}

int ref_Pl_HTBL_Nb_Elements(void *htbl)
{
  return Nb_Elem(htbl);
}
