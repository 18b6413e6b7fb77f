/* What the functions of atom.c are to do. */
#include "gp_config.h"
#include <stdlib.h>
#include <string.h>
#include <locale.h>
#include <ctype.h>
#include "engine_pl.h"
#include "linedit.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define ATOM_FILE

#define ERR_ATOM_NIL_INVALID "atom: invalid ATOM_NIL (should be %d)"

#define ERR_TABLE_FULL_ENV "Atom table full (max atom: %d, environment variable used: %s)"

#define ERR_TABLE_FULL_NO_ENV "Atom table full (max atom: %d - fixed size)"

extern int pl_char_type[256];

extern char pl_escape_symbol[];
extern char pl_escape_char[];

extern char str_char[256][2];

int Add_Atom(char *name, int len, unsigned hash, AtomInf *patom, Bool allocate);

AtomInf *Locate_Atom(char *name, unsigned hash);

unsigned Hash_String(char *str, int len);

void Error_Table_Full(void);
void Pl_Init_Atom(void);
int Pl_Create_Allocate_Atom(char *name);
int Pl_Create_Atom(char *name);
int Add_Atom(char *name, int len, unsigned hash, AtomInf *patom, Bool allocate);
WamWord FC Pl_Create_Atom_Tagged(char *name);
int Pl_Find_Atom(char *name);
AtomInf * Locate_Atom(char *name, unsigned hash);
unsigned Hash_String(char *str, int len);
int Pl_Gen_New_Atom(char *prefix);
int Pl_Find_Next_Atom(int last_atom);
void Error_Table_Full(void);
int ref_pl_char_type[256] = {

   LA, LA, LA, LA, LA, LA, LA, LA, LA, LA, LA, LA, LA, LA, LA, LA,

   LA, LA, LA, LA, LA, LA, LA, LA, LA, LA, LA, LA, LA, LA, LA, LA,

   LA, SC, DQ, GR, GR, CM, GR, QT, PC, PC, GR, GR, SC, GR, GR, GR,

   DI, DI, DI, DI, DI, DI, DI, DI, DI, DI, GR, SC, GR, GR, GR, GR,

   GR, CL, CL, CL, CL, CL, CL, CL, CL, CL, CL, CL, CL, CL, CL, CL,

   CL, CL, CL, CL, CL, CL, CL, CL, CL, CL, CL, PC, GR, PC, GR, UL,

   BQ, SL, SL, SL, SL, SL, SL, SL, SL, SL, SL, SL, SL, SL, SL, SL,

   SL, SL, SL, SL, SL, SL, SL, SL, SL, SL, SL, PC, PC, PC, GR, LA

};
char ref_pl_escape_symbol[] = "abfnrtv";
char ref_pl_escape_char[] = "\a\b\f\n\r\t\v";

void ref_Pl_Init_Atom(void)
{
  int i, c;

  if (pl_max_atom < 256)
    pl_max_atom = 256;

  if (pl_max_atom <= ATOM_NIL)
    pl_max_atom = ATOM_NIL + 1;

  if (pl_max_atom > ((PlULong) 1 << ATOM_MAX_BITS))
    pl_max_atom = ((PlULong) 1 << ATOM_MAX_BITS);

  pl_atom_tbl = (AtomInf *) Calloc(pl_max_atom, sizeof(AtomInf));
  pl_nb_atom = 0;

  for (c = 128; c < 256; c++)
    {
      pl_char_type[c] = islower(c) ? SL : (isupper(c)) ? CL : EX;
    }

  for (i = 0; i < 256; i++)
    pl_char_conv[i] = i;

  for (i = 0; i < 256; i++)
    {
      str_char[i][0] = i;
      str_char[i][1] = '\0';

	Pl_Create_Atom(str_char[i]);
    }

  i = Pl_Create_Atom("[]");
  if (i != ATOM_NIL)
    Pl_Fatal_Error(ERR_ATOM_NIL_INVALID, i);

  pl_atom_void = Pl_Create_Atom("");
  pl_atom_curly_brackets = Pl_Create_Atom("{}");

  pl_atom_false = Pl_Create_Atom("false");
  pl_atom_true = Pl_Create_Atom("true");

  pl_atom_end_of_file = Pl_Create_Atom("end_of_file");
}

int ref_Pl_Create_Allocate_Atom(char *name)
{
  int len = (int) strlen(name);
  unsigned hash = Hash_String(name, len);
  AtomInf *patom = Locate_Atom(name, hash);

  return Add_Atom(name, len, hash, patom, TRUE);
}

int ref_Pl_Create_Atom(char *name)
{
  int len = (int) strlen(name);
  unsigned hash = Hash_String(name, len);

  AtomInf *patom = Locate_Atom(name, hash);

  return Add_Atom(name, len, hash, patom, FALSE);
}

int ref_Add_Atom(char *name, int len, unsigned hash, AtomInf *patom, Bool allocate)
{
  AtomProp prop;
  char *p;
  int c_type;
  Bool identifier;
  Bool graphic;

  if (patom == NULL)
    Error_Table_Full();

  if (patom->name != NULL)
    return (int) (patom - pl_atom_tbl);

  if (allocate)
    name = Strdup(name);

  pl_nb_atom++;

  patom->name = name;
  patom->hash = hash;

  prop.needs_scan = FALSE;

  identifier = graphic = (*name != '\0');

  for (p = name; *p; p++)
    {
      c_type = pl_char_type[(unsigned char) *p];

      if ((c_type & (UL | CL | SL | DI)) == 0)
	identifier = FALSE;

      if (c_type != GR)
	graphic = FALSE;

      if ((*p != ' ' && (c_type & (QT | EX | LA))) || *p == '\\')
	prop.needs_scan = TRUE;
    }

  prop.length = len;

  if (len > 1 && identifier)
    Pl_LE_Compl_Add_Word(name, len);

  if (pl_char_type[(unsigned char) *name] != SL)
    identifier = FALSE;

  if (identifier)
    {
      prop.type = IDENTIFIER_ATOM;
      prop.needs_quote = FALSE;
      goto finish;
    }

  if (graphic)
    {
      prop.type = GRAPHIC_ATOM;
      prop.needs_quote =
	(len == 1 && *name == '.') ||
	(len == 1 && *name == '%') ||
	(len >= 2 && name[0] == '/' && name[1] == '*')

	;
      goto finish;
    }

  if (len == 1 && pl_char_type[(unsigned char) *name] == SC)
    {
      prop.type = SOLO_ATOM;
      prop.needs_quote = (*name == ',');
      goto finish;
    }

  prop.type = OTHER_ATOM;
  prop.needs_quote = prop.needs_scan ||
    !(len == 2 && ((name[0] == '[' && name[1] == ']') ||
		   (name[0] == '{' && name[1] == '}')));

finish:
  prop.op_mask = 0;
  patom->prop = prop;

  return (int) (patom - pl_atom_tbl);
}

WamWord FC ref_Pl_Create_Atom_Tagged(char *name)
{
  return Tag_ATM(Pl_Create_Atom(name));
}

int ref_Pl_Find_Atom(char *name)
{
  int len = (int) strlen(name);
  unsigned hash = Hash_String(name, len);
  AtomInf *patom;

  patom = Locate_Atom(name, hash);
  return (patom == NULL || patom->name == NULL) ? -1 : (int) (patom - pl_atom_tbl);
}

AtomInf * ref_Locate_Atom(char *name, unsigned hash)
{
  int index;
  AtomInf *patom0, *patom, *endt;

  index = hash % pl_max_atom;
  patom = patom0 = pl_atom_tbl + index;
  endt = pl_atom_tbl + pl_max_atom;

  while (patom->name && (patom->hash != hash || strcmp(patom->name, name) != 0))
    {
      patom++;
      if (patom == endt)
	patom = pl_atom_tbl;
      if (patom == patom0)
	return NULL;
    }

  return patom;
}

unsigned ref_Hash_String(char *str, int len)
{
  if (len == 0)
    return 0;

  if (len == 1)
    return (unsigned) ((unsigned char) (*str));

  if (len == 2 && str[0] == '[' && str[1] == ']')
    return ATOM_NIL;

  return Pl_Hash_Buffer(str, len);
}

int ref_Pl_Gen_New_Atom(char *prefix)
{
#define GEN_SYM_CHARS "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

  static char gen_sym_chars[] = GEN_SYM_CHARS;
  static char gen_sym_buff[1024];

#define Gen_Sym_Rand() (gen_sym_rand_next = gen_sym_rand_next * 1103515245 + 12345, (gen_sym_rand_next / 65536 % 32768))

  static unsigned gen_sym_rand_next = 1;

#define TRY_MAX 1

  int try_no = 0;
  int len;
  unsigned hash;
  char *str;
  int c;
  AtomInf *patom;
  int atom;

  if (pl_nb_atom >= pl_max_atom)
    Error_Table_Full();

  strcpy(gen_sym_buff, prefix);
  str = gen_sym_buff + strlen(prefix);

  for(;;)
    {
      c = Gen_Sym_Rand() % (sizeof(gen_sym_chars) - 1);
      *str = gen_sym_chars[c];
      str[1] = '\0';

      len =  (int) (str - gen_sym_buff + 1);

      hash = Hash_String(gen_sym_buff, len);

      patom = Locate_Atom(gen_sym_buff, hash);

      if (patom->name == NULL)
	break;

      if (++try_no == TRY_MAX)
	{

	  str++;

	  try_no = 0;
	}
    }

  atom = Add_Atom(gen_sym_buff, len, hash, patom, TRUE);

  return atom;
}

int ref_Pl_Find_Next_Atom(int last_atom)
{
  while ((PlULong) ++last_atom < pl_max_atom)
    {
      if (pl_atom_tbl[last_atom].name)
	return last_atom;
    }

  return -1;
}

void ref_Error_Table_Full(void)
{
  if (pl_fixed_sizes)
    Pl_Fatal_Error(ERR_TABLE_FULL_NO_ENV, pl_max_atom);
  else
    Pl_Fatal_Error(ERR_TABLE_FULL_ENV, pl_max_atom, ENV_VAR_MAX_ATOM);
}
