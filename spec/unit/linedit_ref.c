/* What the functions of linedit.c are to do. */
#include "../EnginePl/gp_config.h"

#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <ctype.h>
#include <string.h>
#include <signal.h>

#include <sys/stat.h>

#include <unistd.h>
#include <sys/time.h>

#define LE_DEFINE_HOOK_MACROS

#include "../EnginePl/bool.h"
#include "../EnginePl/pl_long.h"
#include "terminal.h"
#include "ctrl_c.h"
#include "linedit.h"
#include "macros_ref.h"

#define TREAT_BUFFERED_CHARS

#define NO_DUP_IN_HISTORY

#define IGNORE_QUOTED_PART

#define LINEDIT_VERSION "2.6"

#define MAX_HISTORY_LINES 64
#define MAX_SEPARATORS 256

#define NB_TAB_BEFORE_LIST 1

#define DEFAULT_SEPARATORS " ,;:-'\"!@$#^&()-+*/\\[]|<=>`~{}"

#define NB_MATCH_LINES_BEFORE_ASK 20

#define OPEN_BRACKET "([{"
#define CLOSE_BRACKET ")]}"

#define BRACKET_TIMMING 900000

typedef struct
{
  int buff_length;
  int line_length;
  char *line;
}
HistCell;

extern char separators[MAX_SEPARATORS];
extern int ins_mode;

extern char *global_str;
extern char *global_pos;
extern char *global_end;

extern int prompt_length;

extern PlLong ctrl_c_ret_val;

extern char clipboard[4096];

extern HistCell hist_tbl[MAX_HISTORY_LINES];
extern int hist_start;
extern int hist_end;

bool New_Char(int c, char *str, int size, char **p_pos, char **p_end);

char *Skip(char *from, char *limit, int res_sep_cmp, int direction);

bool Is_A_Separator(char c);

int Search_Bracket(char *brackets, char c);

int Tab_To_Spaces(int p);

void History_Add_Line(char *line, int length);

void History_Update_Line(char *line, int length, int hist_no);

int History_Get_Line(char *str, int hist_no);

void Display_All_Completions(ComplMatch *compl_match);

void Display_Help(void);

#define NEW_LN() { PUT_CHAR('\n'); }

#define Hist_Inc(n) { if (++(n) >= MAX_HISTORY_LINES) (n) = 0; }

#define Hist_Dec(n) { if (--(n) < 0) (n) = MAX_HISTORY_LINES - 1; }

#define Hist_First(n) { (n) = Hist_Start_Entry(); }

#define Hist_Last(n) { (n) = Hist_End_Entry(); }

#define Hist_Start_Entry() (hist_start)

#define Hist_End_Entry() (hist_end)

#define Hist_Is_Empty() (hist_start == hist_end)

#define RE_DISPLAY_LINE do { if (prompt && display_prompt) DISPL_STR(prompt); DISPL(end - str, str); BACKD(end - pos); } while(0)
char * Pl_LE_Gets(char *str);
char * Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt);
bool New_Char(int c, char *str, int size, char **p_pos, char **p_end);
int Pl_LE_Get_Prompt_Length(void);
int Pl_LE_Get_Current_Position(void);
void Pl_LE_Get_Current_Word(char *word);
char * Pl_LE_Get_Separators(void);
char * Pl_LE_Set_Separators(char *sep_str);
char * Pl_LE_Adjust_For_Completion(char *word);
PlLong Pl_LE_Get_Ctrl_C_Return_Value(void);
char * Skip(char *from, char *limit, int res_sep_cmp, int direction);
bool Is_A_Separator(char c);
int Search_Bracket(char *brackets, char c);
int Tab_To_Spaces(int p);
void History_Add_Line(char *line, int length);
void History_Update_Line(char *line, int length, int hist_no);
int History_Get_Line(char *str, int hist_no);
void Display_All_Completions(ComplMatch *compl_match);
int Pl_LE_Get_Key(int echo, int catch_ctrl_c);
int Pl_LE_Printf(char *format, ...);
char ref_separators[MAX_SEPARATORS] = DEFAULT_SEPARATORS;
int ref_ins_mode = 1;
char ref_clipboard[4096] = "";

char * ref_Pl_LE_Gets(char *str)
{
  int l;
  int big_size = ((unsigned) -1) >> 1;

  if ((str = Pl_LE_FGets(str, big_size, NULL, 0)) != NULL)
    {
      l = (int) (strlen(str) - 1);
      if (l >= 0 && str[l] == '\n')
        str[l] = '\0';
    }

  return str;
}

char * ref_Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt)
{
  char *pos = str;
  char *end = str;
  char *mark = NULL;
  char *p, *q, *start, *stop;
  char w;
  int c, n, n1;
  bool last_was_eof = false;
  int h_no = Hist_End_Entry();
  int tab_count = 0;
  int count_bracket[3];
  ComplMatch compl_match;

  Pl_LE_Initialize();

  size--;

  prompt_length = (prompt && display_prompt) ? (int) strlen(prompt) : 0;

  Pl_LE_Open_Terminal();
  global_str = str;
  global_pos = pos;
  global_end = end;

  while (KBD_IS_NOT_EMPTY)
    {
      if (end - str >= size || ((c = Pl_LE_Get_Char()) == '\n') || c == '\r')
        {
          RE_DISPLAY_LINE;
          goto return_is_read;
        }
      if (c == '\t')
        for(n = Tab_To_Spaces((int) (end - str)); n; n--)
          *end++ = ' ';
      else
        *end++ = c;
    }

  if (end != str)
    {
      pos = end;
      goto re_display_line;
    }

  if (prompt && display_prompt)
    DISPL_STR(prompt);

  for (;;)
    {
      global_pos = pos;
      global_end = end;

      Debug_Check_Positions(pos - str);

      c = Pl_LE_Get_Char();
    one_char:
      *end = ' ';

      if (Pl_LE_Is_Interrupt_Key(c))
        {
          int save_prompt_length = prompt_length;

          FORWD(end - pos, pos);

          Pl_LE_Close_Terminal();
          c = *end;
          *end = '\0';
          if ((ctrl_c_ret_val = Pl_Emit_Ctrl_C()) != 0)
            return (char *) -2;

          Pl_LE_Open_Terminal();
          *end = c;

          global_str = str;
          prompt_length = save_prompt_length;

        re_display_line:
          RE_DISPLAY_LINE;
          continue;
        }

      if (KEY_IS_EOF(c))
        {
          if (end == str)
            {
              if (c == KEY_CTRL('D') && last_was_eof)
                goto error;
              else
                {
                  str = NULL;
                  goto finish;
                }
            }
          last_was_eof = (c == KEY_CTRL('D'));
        }
      else
        last_was_eof = false;

      if (c != '\t')
        tab_count = 0;

      switch (c)
        {
        case KEY_CTRL('A'):
        case KEY_EXT_HOME:
          BACKD(pos - str);
          pos = str;
          continue;

        case KEY_CTRL('E'):
        case KEY_EXT_END:
          FORWD(end - pos, pos);
          pos = end;
          continue;

        case KEY_CTRL('B'):
        case KEY_EXT_LEFT:
          if (pos == str)
            goto error;
          BACKD(1);
          pos--;
          continue;

        case KEY_CTRL('F'):
        case KEY_EXT_RIGHT:
          if (pos == end)
            goto error;
          FORWD(1, pos);
          pos++;
          continue;

        case KEY_BACKSPACE:
        case KEY_DELETE:
          if (pos == str)
            goto error;
        del_last:
          for (p = pos; p < end; p++)
            p[-1] = *p;
          BACKD(1);
          pos--;
          end--;
          DISPL(end - pos, pos);
          ERASE(1);
          BACKD(end - pos);
          continue;

        case KEY_CTRL('D'):
        case KEY_EXT_DELETE:
          if (pos == end)
            goto error;

          FORWD(1, pos);
          pos++;
          goto del_last;

        case KEY_CTRL('U'):
        case KEY_ID2(KEY_MODIF_CTRL, KEY_EXT_HOME):
          q = clipboard;
          p = str;
          while (p < pos)
            *q++ = *p++;
          *q = '\0';
          n = (int) (pos - str);
          for (p = pos; p < end; p++)
            p[-n] = *p;

          pos = str;
          end -= n;
          BACKD(n);
          DISPL(end - pos, pos);
          ERASE(n);
          BACKD(end - pos);
          continue;

        case KEY_CTRL('K'):
        case KEY_ID2(KEY_MODIF_CTRL, KEY_EXT_END):
          q = clipboard;
          p = pos;
          while (p < end)
            *q++ = *p++;
          *q = '\0';
          ERASE(end - pos);
          end = pos;
          continue;

        case KEY_CTRL('Y'):
          for (p = clipboard; *p; p++)
            if (!New_Char(*p, str, size, &pos, &end))
              goto error;
          continue;

        case KEY_CTRL(' '):
          mark = pos;
          continue;

        case KEY_ESC('W'):
        case KEY_CTRL('W'):
          if (mark == NULL)
            goto error;

          if (mark < pos)
            {
              start = mark;
              stop = pos;
            }
          else
            {
              start = pos;
              stop = mark;
            }
          q = clipboard;
          p = start;
          while (p < stop)
            *q++ = *p++;
          *q = '\0';
          if (c == KEY_ESC('W'))
            continue;

          n = (int) (stop - start);
          for (p = stop; p < end; p++)
            p[-n] = *p;

          if (mark < pos)
            BACKD(n);
          pos = start;
          end -= n;
          DISPL(end - pos, pos);
          ERASE(n);
          BACKD(end - pos);
          continue;

        case KEY_ESC('B'):
        case KEY_ID2(KEY_MODIF_CTRL, KEY_EXT_LEFT):
          p = (pos == str) ? pos : pos - 1;
          p = Skip(p, str, 1, -1);
          p = Skip(p, str, 0, -1);
          p = Skip(p, end, 1, +1);
          BACKD(pos - p);
          pos = p;
          continue;

        case KEY_ESC('F'):
        case KEY_ID2(KEY_MODIF_CTRL, KEY_EXT_RIGHT):
          p = pos;
          p = Skip(p, end, 0, +1);
          p = Skip(p, end, 1, +1);
          FORWD(p - pos, pos);
          pos = p;
          continue;

        case KEY_ESC('C'):
          p = pos;
          p = Skip(p, end, 1, +1);
          if (islower(*p))
            *p = *p - 'a' + 'A';
          p = Skip(p, end, 0, +1);
          DISPL(p - pos, pos);
          pos = p;
          continue;

        case KEY_ESC('L'):
          p = pos;
          p = Skip(p, end, 1, +1);
          for (; p < end && !Is_A_Separator(*p); p++)
            *p = tolower(*p);
          DISPL(p - pos, pos);
          pos = p;
          continue;

        case KEY_ESC('U'):
          p = pos;
          p = Skip(p, end, 1, +1);
          for (; p < end && !Is_A_Separator(*p); p++)
            *p = toupper(*p);
          DISPL(p - pos, pos);
          pos = p;
          continue;

        case '\t':
          if (tab_count != 0)
            {
              if (++tab_count > NB_TAB_BEFORE_LIST)
                {
                  NEW_LN();
                  Display_All_Completions(&compl_match);
                  goto re_display_line;
                }
              goto error;
            }
          p = (pos == str) ? pos : pos - 1;
          p = Skip(p, str, 0, -1);
          p = Skip(p, end, 1, +1);
	  n = (int) (pos - p);
	  w = *pos;
          *pos = '\0';

	  Pl_LE_Compl_Match_First(&compl_match, p, n);
	  *pos = w;
	  if (compl_match.nb_match == 0)
            goto error;

	  p = compl_match.cur_word + n;
	  n = compl_match.max_prefix_length - n;
          while (n--)
            if (!New_Char(*p++, str, size, &pos, &end))
              goto error;

          if (compl_match.nb_match > 1)
            {
              tab_count = 1;
              goto error;
            }
          tab_count = 0;
          continue;

        case KEY_ESC('\t'):
          for (n = Tab_To_Spaces((int) (pos - str)); n; n--)
            if (!New_Char(' ', str, size, &pos, &end))
              goto error;
          continue;

        case KEY_CTRL('V'):
        case KEY_EXT_INSERT:
          ins_mode = 1 - ins_mode;
          INS_MODE(ins_mode);
          continue;

        case KEY_CTRL('T'):
          if (pos == str || pos == end)
            goto error;
          w = pos[0];
          pos[0] = pos[-1];
          pos[-1] = w;
          BACKD(1);
          DISPL(2, pos - 1);
          pos++;
          continue;

        case '\n':
        case '\r':
        return_is_read:
          FORWD(end - pos, pos);

	  *end = '\0';
	  History_Add_Line(str, (int) (end - str));
	  if (end - str < size)
	    *end++ = '\n';
	  *end = '\0';
	  goto finish;

        case KEY_CTRL('P'):
        case KEY_EXT_UP:
          if (Hist_Is_Empty() || h_no == Hist_Start_Entry())
            goto error;
          *end = '\0';
          History_Update_Line(str, (int) (end - str), h_no);
          Hist_Dec(h_no);
        write_hist_line:
          p = end;
          end = str + History_Get_Line(str, h_no);
          BACKD(pos - str);
          DISPL(end - str, str);
          if (end < p)
            ERASE(p - end);
          pos = end;
          continue;

        case KEY_CTRL('N'):
        case KEY_EXT_DOWN:
          if (Hist_Is_Empty() || h_no == Hist_End_Entry())
            goto error;
          *end = '\0';
          History_Update_Line(str, (int) (end - str), h_no);
          Hist_Inc(h_no);
          goto write_hist_line;

        case KEY_ESC('P'):
         if (Hist_Is_Empty() || pos == str)
            goto error;
          *end = '\0';
          History_Update_Line(str, (int) (end - str), h_no);
        try_previous:
          if (h_no == Hist_Start_Entry())
            goto error;
          Hist_Dec(h_no);
          if (hist_tbl[h_no].line == NULL ||
              strncmp(str, hist_tbl[h_no].line, pos - str) != 0)
            goto try_previous;
        write_hist_match_line:
          p = end;
          end = str + History_Get_Line(str, h_no);
          DISPL(end - pos, pos);
          if (end < p)
            ERASE(p - end);
          BACKD(end - pos);
          continue;

        case KEY_ESC('N'):
          if (Hist_Is_Empty() || pos == str)
            goto error;
          *end = '\0';
          History_Update_Line(str, (int) (end - str), h_no);
        try_next:
          if (Hist_Is_Empty() || h_no == Hist_End_Entry())
            goto error;
          Hist_Inc(h_no);
          if (hist_tbl[h_no].line == NULL ||
              strncmp(str, hist_tbl[h_no].line, pos - str) != 0)
            goto try_next;
          goto write_hist_match_line;

        case KEY_ESC('<'):
        case KEY_EXT_PAGE_UP:
          if (Hist_Is_Empty() || h_no == Hist_Start_Entry())
            goto error;
          *end = '\0';
          History_Update_Line(str, (int) (end - str), h_no);
          Hist_First(h_no);
          goto write_hist_line;

        case KEY_ESC('>'):
        case KEY_EXT_PAGE_DOWN:
          if (Hist_Is_Empty() || h_no == Hist_End_Entry())
            goto error;
          *end = '\0';
          History_Update_Line(str, (int) (end - str), h_no);
          Hist_Last(h_no);
          goto write_hist_line;

        case KEY_ESC('?'):
        display_help:
          NEW_LN();
          Display_Help();
          goto re_display_line;

        default:
          if ((unsigned) c > 255 || !isprint(c))
            {
              n = c;
              EMIT_BEEP;
              c = Pl_LE_Get_Char();
              if (c != n)
                goto one_char;
              goto display_help;
            }

          if (!New_Char(c, str, size, &pos, &end))
            goto error;

          if (KBD_IS_NOT_EMPTY || (n = Search_Bracket(CLOSE_BRACKET, c)) < 0)
            continue;

          count_bracket[0] = count_bracket[1] = count_bracket[2] = 0;
          count_bracket[n]--;

          p = pos - 1;
          for (; count_bracket[n] != 0;)
            {
              if (--p < str)
                goto bracket_exit;

              c = *p;
              if ((n1 = Search_Bracket(CLOSE_BRACKET, c)) >= 0)
                {
                  count_bracket[n1]--;
                  continue;
                }

              if ((n1 = Search_Bracket(OPEN_BRACKET, c)) >= 0)
                if (++count_bracket[n1] > 0)
                  goto bracket_exit;

              if (p > str && (c == '\'' || c == '"') && p[-1] != '\\')
                {
                  while (--p > str && (*p != c || p[-1] == '\\'))
                    ;
                }

            }

          if (KBD_IS_NOT_EMPTY)
            continue;

          n = (int) (pos - p);
          q = pos;
          BACKD(n);
          {
            fd_set set;
            struct timeval t;

            t.tv_sec = 0;
            t.tv_usec = BRACKET_TIMMING;

            FD_ZERO(&set);
            FD_SET(0, &set);
            select(1, &set, NULL, NULL, &t);
          }

          pos = p;
          FORWD(n, pos);
          pos = q;
        bracket_exit:
          continue;
        }
    error:
      EMIT_BEEP;
    }

 finish:
  NEW_LN();

  Pl_LE_Close_Terminal();

  return str;
}

bool ref_New_Char(int c, char *str, int size, char **p_pos, char **p_end)
{
  char *pos = *p_pos;
  char *end = *p_end;
  char *p;

  if ((ins_mode || pos == end) && end - str >= size)
    return false;

  if (!ins_mode)
    {
      *pos = (char) c;
      if (++pos > end)
        end = pos;
      PUT_CHAR(c);
    }
  else
    {
      for (p = end; p > pos; p--)
        *p = p[-1];

      *pos = (char) c;
      end++;
      DISPL(end - pos, pos);
      pos++;
      BACKD(end - pos);
    }

  *p_pos = pos;
  *p_end = end;

  return true;
}

int ref_Pl_LE_Get_Prompt_Length(void)
{
  return prompt_length;
}

int ref_Pl_LE_Get_Current_Position(void)
{
  return (int) (global_pos - global_str);
}

void ref_Pl_LE_Get_Current_Word(char *word)
{
  char *str = global_str;
  char *pos = global_pos;
  char *end = global_end;
  char *p, *q;

  p = Skip(pos, str, 0, -1);
  if (Is_A_Separator(*p))
    p++;

  q = Skip(pos, end, 0, +1);

  while (p < q)
    *word++ = *p++;

  *word = '\0';
}

char * ref_Pl_LE_Get_Separators(void)
{
  return separators;
}

char * ref_Pl_LE_Set_Separators(char *sep_str)
{
  return strcpy(separators, sep_str);
}

char * ref_Pl_LE_Adjust_For_Completion(char *word)
{
  char *s;
  while(Is_A_Separator(*word))
    word++;

  for(s = word; *s; s++)
    if (Is_A_Separator(*s))
      return NULL;

  return word;
}

PlLong ref_Pl_LE_Get_Ctrl_C_Return_Value(void)
{
  return ctrl_c_ret_val;
}

char * ref_Skip(char *from, char *limit, int res_sep_cmp, int direction)
{
  while (from != limit)
    {
      if (Is_A_Separator(*from) != res_sep_cmp)
        break;

      from = from + direction;
    }

  return from;
}

bool ref_Is_A_Separator(char c)
{
  char *p;

  for (p = separators; *p; p++)
    if (*p == c)
      return true;

  return false;
}

int ref_Search_Bracket(char *brackets, char c)
{
  int n;

  for(n = 0; brackets[n] != '\0'; n++)
    if (brackets[n] == c)
      return n;

  return -1;
}

int ref_Tab_To_Spaces(int p)
{
  p += prompt_length;
  p = 8 - (p % 8);
  return p;
}

void ref_History_Add_Line(char *line, int length)
{
  char *p = line;

  while (*p == ' ')
    p++;
  if (*p == '\0')
    return;

  if (hist_end > 0 && strcmp(line, hist_tbl[hist_end - 1].line) == 0)
    return;

  History_Update_Line(line, length, hist_end);

  Hist_Inc(hist_end);
  if (hist_end == hist_start)
    Hist_Inc(hist_start);
}

void ref_History_Update_Line(char *line, int length, int hist_no)
{
  HistCell *h;

  h = hist_tbl + hist_no;

  if (h->line != NULL && h->buff_length < length)
    {
      free(h->line);
      h->line = NULL;
    }

  if (h->line == NULL)
    {
      if ((h->line = (char *) malloc(length + 1)) == NULL)
        exit(1);
      h->buff_length = length;
    }

  strcpy(h->line, line);
  h->line_length = length;
}

int ref_History_Get_Line(char *str, int hist_no)
{
  HistCell *h = hist_tbl + hist_no;

  strcpy(str, h->line);

  return h->line_length;
}

void ref_Display_All_Completions(ComplMatch *compl_match)
{
  int nb_match = compl_match->nb_match;
  int max_word_length = compl_match->max_word_length;
  int row, col;
  int nb_cols, nb_lines;
  int space_between;
  char buff[64];
  int l, c;

  SCREEN_SIZE(&row, &col);

#define MIN_CHARS_BETWEEN_WORDS 1

  nb_cols = (col - 1 + MIN_CHARS_BETWEEN_WORDS) / (max_word_length + MIN_CHARS_BETWEEN_WORDS);
  if (nb_cols < 1)
    nb_cols = 1;

  nb_lines = (nb_match + nb_cols - 1) / nb_cols;

  space_between = MIN_CHARS_BETWEEN_WORDS;

  if (nb_lines > NB_MATCH_LINES_BEFORE_ASK)
    {
      sprintf(buff, "Show all %d possibilities (y/n) ? ", nb_match);
      DISPL_STR(buff);
      c = Pl_LE_Get_Char();
      NEW_LN();
      if (c != 'y' && c != 'Y')
        return;
    }

  for(l = 0; l < nb_lines; l++)
    {

      int space_prev = 0;
      for(c = 0; c < nb_cols; c++)
	{
	  int no = c * nb_lines + l;
	  if (Pl_LE_Compl_Match_Goto(compl_match, no))
	    {
	      while(space_prev--)
		PUT_CHAR(' ');
	      DISPL_STR(compl_match->cur_word);
	      space_prev = max_word_length - compl_match->cur_word_length + space_between;
	    }
	}
      NEW_LN();
    }
}

void ref_Display_Help(void)
#define L(msg) DISPL_STR(msg); NEW_LN()
{
  char buff[80];

  L("");
  sprintf(buff,
          "   linedit %-25s Copyright (C) 1999-2026 Daniel Diaz",
          LINEDIT_VERSION);
  L(buff);
  L("");
  L("                              Moving");
  L("   Ctl-B   previous char             Ctl-F   next char");
  L("   Esc-B   previous word             Esc-F   next word");
  L("   Ctl-A   begin of line             Ctl-E   end of line");
  L("");
  L("                             Deleting");
  L("   Ctl-U   delete begin of line      Ctl-K   delete end of line");
  L("   Ctl-H   delete previous char      Ctl-D   delete current char");
  L("");
  L("                             Changing");
  L("   Esc-L   downcase word             Esc-U   upcase word");
  L("   Esc-C   capitalize word           Ctl-T   reverse last two chars");
  L("");
  L("                             History");
  L("   Esc-<   first line                Esc->   last line");
  L("   Ctl-P   previous line             Ctl-N   next line");
  L("   Esc-P   previous matching line    Esc-N   next matching line");
  L("");
  L("                             Selection");
  L("   Ctl-spc mark selection            Ctl-W   cut  selection");
  L("   Esc-W   copy selection            Ctl-Y   past selection");
  L("");
  L("                           Miscellaneous");
  L("   Ctl-V   insert mode switch        Ctl-I   completion (twice = all)");
  L("   Esc-?   display this help       Esc-Ctl-I insert spaces for tab");
  L("");
}

#undef L

int ref_Pl_LE_Get_Key(int echo, int catch_ctrl_c)
{
  int c;

  Pl_LE_Initialize();
  prompt_length = 0;

start:
  Pl_LE_Open_Terminal();

  c = Pl_LE_Get_Char();
  if (catch_ctrl_c && Pl_LE_Is_Interrupt_Key(c))
    {
      Pl_LE_Close_Terminal();
      if ((ctrl_c_ret_val = Pl_Emit_Ctrl_C()) != 0)
        return -2;
      goto start;
    }

  if (KEY_IS_EOF(c))
    c = EOF;

  if (echo && (unsigned) c <= 255 && isprint(c))
    PUT_CHAR(c);

  Pl_LE_Close_Terminal();

  return c;
}

int ref_Pl_LE_Printf(char *format, ...)
{
  va_list arg_ptr;
  static char buff[65535];
  int ret;

  Pl_LE_Initialize();

  va_start(arg_ptr, format);
  ret = vsprintf(buff, format, arg_ptr);
  DISPL_STR(buff);
  va_end(arg_ptr);

  return ret;
}
