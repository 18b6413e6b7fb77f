/* What the functions of completion.c are to do. */
#include "../EnginePl/gp_config.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "completion.h"

#define MAP_KEY_TYPE char *
#define MAP_KEY_CMP(x,y) strcmp(x, y)
#define MAP_VALUE_TYPE int
#include "../Tools/map_rbtree.h"
#include "macros_ref.h"

extern struct map_rbt dico;
bool Pl_LE_Compl_Add_Word(char *word, int word_length);
bool Pl_LE_Compl_Remove_Word(char *word);
bool Pl_LE_Compl_Is_Empty(void);
int Pl_LE_Compl_Size(void);
void Pl_LE_Compl_Clear(void);
bool Pl_LE_Compl_Match_First(ComplMatch *cm, char *prefix, int prefix_length);
bool Pl_LE_Compl_Match_Navig(ComplMatch *cm, int step);
bool Pl_LE_Compl_Match_Last(ComplMatch *cm, char *prefix, int prefix_length);
struct map_rbt ref_dico = MAP_INIT;

bool ref_Pl_LE_Compl_Add_Word(char *word, int word_length)
{
  bool created;
  struct map_entry *entry = map_put(&dico, word, &created);
  if (created)
    entry->value = word_length;
  return created;
}

bool ref_Pl_LE_Compl_Remove_Word(char *word)
{
  return map_remove(&dico, word);
}

bool ref_Pl_LE_Compl_Is_Empty(void)
{
  return map_is_empty(&dico);
}

int ref_Pl_LE_Compl_Size(void)
{
  return map_size(&dico);
}

void ref_Pl_LE_Compl_Clear(void)
{
  map_clear(&dico);
}

bool ref_Pl_LE_Compl_Match_First(ComplMatch *cm, char *prefix, int prefix_length)
{

  cm->prefix_length = prefix_length;
  cm->nb_match = 0;
  cm->max_word_length = 0;
  cm->cur_no = 0;
  cm->cur_word = NULL;
  cm->cur_word_length = 0;
  cm->entry = NULL;

  struct map_entry *entry = map_next(&dico, prefix, false);

  if (entry == NULL)
    return false;

  struct map_entry *first_entry = entry;
  struct map_entry *last_entry = NULL;

  while(entry && strncmp(prefix, entry->key, prefix_length) == 0)
    {
      last_entry = entry;
      cm->nb_match++;
      if (entry->value > cm->max_word_length)
	cm->max_word_length = entry->value;

      entry = map_next_entry(&dico, entry);
    }

  if (cm->nb_match == 0)
    return false;

  cm->cur_word = first_entry->key;
  cm->cur_word_length = first_entry->value;
  cm->entry = (void *) first_entry;

  if (cm->nb_match == 1)
    {
      cm->max_prefix_length = cm->cur_word_length;
    }
  else
    {
      int l = prefix_length;
      while(first_entry->key[l] == last_entry->key[l])
	l++;
      cm->max_prefix_length = l;
    }
  return true;
}

bool ref_Pl_LE_Compl_Match_Navig(ComplMatch *cm, int step)
{
  int no = cm->cur_no + step;
  if (no < 0 || no >= cm->nb_match)
    return false;

  if (step == 0)
    return true;

  struct map_entry *entry = (struct map_entry *) cm->entry;
  if (step > 0)
    while(step-- > 0)
      entry = map_next_entry(&dico, entry);
  else
    while(step++ < 0)
      entry = map_prev_entry(&dico, entry);

  cm->cur_no = no;
  cm->cur_word = entry->key;
  cm->cur_word_length = entry->value;
  cm->entry = (void *) entry;
  return true;
}

bool ref_Pl_LE_Compl_Match_Last(ComplMatch *cm, char *prefix, int prefix_length)
{
  if (!Pl_LE_Compl_Match_First(cm, prefix, prefix_length))
    return false;

  return Pl_LE_Compl_Match_Navig(cm, cm->nb_match - 1);
}
