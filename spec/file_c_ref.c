/* What the functions of file_c.c are to do. */
#include "gp_config.h"
#include <string.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include <unistd.h>
#include <sys/param.h>
#include "macros_ref.h"
#include "wam_ref.h"

char *Find_Suffix(char *suffixes, char *suffix);
Bool Pl_Absolute_File_Name_2(WamWord path1_word, WamWord path2_word);
Bool Pl_Is_Absolute_File_Name_1(WamWord path_word);
Bool Pl_Is_Relative_File_Name_1(WamWord path_word);
Bool Pl_Decompose_File_Name_4(WamWord path_word, WamWord dir_word, WamWord prefix_word, WamWord suffix_word);
Bool Pl_Prolog_File_Name_2(WamWord path1_word, WamWord path2_word);
Bool Pl_Prolog_File_Suffix_1(WamWord suffix_word);
char * Find_Suffix(char *suffixes, char *suffix);


Bool ref_Pl_Absolute_File_Name_2(WamWord path1_word, WamWord path2_word)
{
  char *path1, *path2;

  path1 = pl_atom_tbl[Pl_Rd_Atom_Check(path1_word)].name;

  path2 = Pl_Absolute_Path_Name(path1);
  if (path2 == NULL)
    Pl_Err_Domain(pl_domain_os_path, path1_word);

  return Pl_Un_String_Check(path2, path2_word);
}

Bool ref_Pl_Is_Absolute_File_Name_1(WamWord path_word)
{
  char *path = pl_atom_tbl[Pl_Rd_Atom_Check(path_word)].name;

  return Pl_Is_Absolute_File_Name(path);
}

Bool ref_Pl_Is_Relative_File_Name_1(WamWord path_word)
{
  return !Pl_Is_Absolute_File_Name_1(path_word);
}

Bool ref_Pl_Decompose_File_Name_4(WamWord path_word, WamWord dir_word, WamWord prefix_word, WamWord suffix_word)
{
  char *path = pl_atom_tbl[Pl_Rd_Atom_Check(path_word)].name;
  char *dir, *base, *suffix;
  char c;

  Pl_Check_For_Un_Atom(dir_word);
  Pl_Check_For_Un_Atom(prefix_word);
  Pl_Check_For_Un_Atom(suffix_word);

  dir = Pl_Decompose_File_Name(path, FALSE, &base, &suffix);

  if (!Pl_Un_String(dir, dir_word))
    return FALSE;

  c = *suffix;
  *suffix = '\0';

  if (!Pl_Un_String(base, prefix_word))
    return FALSE;

  *suffix = c;

  return Pl_Un_String(suffix, suffix_word);
}

Bool ref_Pl_Prolog_File_Name_2(WamWord path1_word, WamWord path2_word)
{
  int atom;
  char *path1;
  int len;
  char *p, *q;
  char suffixes[] = "|" PROLOG_FILE_SUFFIX PROLOG_FILE_SUFFIXES_ALT;

  atom = Pl_Rd_Atom_Check(path1_word);
  path1 = pl_atom_tbl[atom].name;

  path1 = Pl_Absolute_Path_Name(path1);
  if (path1 == NULL)
    Pl_Err_Domain(pl_domain_os_path, path1_word);

  if (strcmp(path1, "user") == 0)
    {
    same:
      return Pl_Un_Atom_Check(atom, path2_word);
    }

  Find_Last_Dir_Sep(p, path1);

  if (strchr((p) ? p : path1, '.'))
    goto same;

  strcpy(pl_glob_buff, path1);
  len = (int) strlen(path1);

  q = suffixes;
  do
    {
      p = q + 1;
      if (*p == '\0')
	{

	    p = PROLOG_FILE_SUFFIX;
	  break;
	}

      q = strchr(p, '|');
      *q = '\0';
      strcpy(pl_glob_buff + len, p);
    }
  while(access(pl_glob_buff, F_OK));

  sprintf(pl_glob_buff, "%s%s", pl_atom_tbl[atom].name, p);

  return Pl_Un_String_Check(pl_glob_buff, path2_word);
}

Bool ref_Pl_Prolog_File_Suffix_1(WamWord suffix_word)
{
  int atom;
  char *suffix;

  atom = Pl_Rd_Atom_Check(suffix_word);
  suffix = pl_atom_tbl[atom].name;

  return Find_Suffix("|" PROLOG_FILE_SUFFIX PROLOG_FILE_SUFFIXES_ALT, suffix) != NULL;
}

char * ref_Find_Suffix(char *suffixes, char *suffix)
{
  char *p;

  if ((p = strstr(suffixes, suffix)) && p[-1] == '|' && p[strlen(suffix)] == '|')
    return p;

  return NULL;
}
