/* What the functions of terminal.c are to do. */
#include "../EnginePl/gp_config.h"

#include <stdio.h>
#include <stdlib.h>
#include <stdbool.h>
#include <string.h>
#include <ctype.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <errno.h>

#include <unistd.h>
#include <sys/ioctl.h>

#include <sys/uio.h>
#include <sys/stat.h>

#include <termios.h>
typedef struct termios TermIO;

#define Gtty(fd,s) tcgetattr(fd, s)
#define Stty(fd,s) tcsetattr(fd, TCSANOW, s)

#define LE_DEFINE_HOOK_MACROS
#define TERMINAL_FILE

#include "../EnginePl/bool.h"
#include "../EnginePl/pl_long.h"
#include "../Tools/ctor.h"
#include "terminal.h"
#include "linedit.h"
#include "macros_ref.h"

extern Bool use_linedit;
extern int use_gui;
extern Bool use_ansi;

extern int fd_in;

extern int fd_out;
extern FILE *file_dbg;

extern int is_tty_in;
extern int is_tty_out;
extern int same_tty;
extern TermIO old_stty_in;
extern TermIO new_stty_in;
extern TermIO old_stty_out;
extern TermIO new_stty_out;

extern int nb_rows, nb_cols;
extern int term_pos;

extern int interrupt_key;

void Parse_Env_Var(void);

int Same_File(int fd1, int fd2);

void Choose_Fd_Out(void);

void Set_TTY_Mode(TermIO *old, TermIO *new);

void Install_Resize_Handler(void);

void Resize_Handler(void);

int LE_Get_Char0(void);

void Backd(int n);

void Forwd(int n, char *str);

void Displ(int n, char *str);

void Displ_Str(char *s);

void Erase(int n);

INITIALIZER(LE_Register)
{
  pl_le_initialize = Pl_LE_Initialize;
}
int Pl_LE_Initialize(void);
void Parse_Env_Var(void);
void Pl_LE_Open_Terminal(void);
void Pl_LE_Close_Terminal(void);
void Choose_Fd_Out(void);
int Same_File(int fd1, int fd2);
void Set_TTY_Mode(TermIO *old, TermIO *new);
void Install_Resize_Handler(void);
void Resize_Handler(void);
void Pl_LE_Screen_Size(int *row, int *col);
int Pl_LE_Is_Interrupt_Key(int c);
int Pl_LE_Kbd_Is_Not_Empty(void);
void Pl_LE_Ins_Mode(int ins_mode);
void Pl_LE_Emit_Beep(void);
void Pl_LE_Put_Char(int c);
int Pl_LE_Get_Char(void);
int LE_Get_Char0(void);
void Backd(int n);
void Forwd(int n, char *str);
void Displ(int n, char *str);
void Erase(int n);
void Displ_Str(char *str);
int ref_fd_out = -1;

int ref_Pl_LE_Initialize(void)
{
  static int initialized = 0;
  static int le_mode;

  if (initialized)
    return le_mode;

  initialized = 1;

  Parse_Env_Var();

  if (!use_linedit)
    return (le_mode = LE_MODE_DEACTIVATED);

  le_mode = LE_MODE_TTY;

  Choose_Fd_Out();

  if (pl_le_hook_start && use_gui)
    (*pl_le_hook_start) (use_gui == 2);

  if (pl_le_hook_put_char != NULL && pl_le_hook_get_char0 != NULL
      && pl_le_hook_kbd_is_not_empty != NULL && pl_le_hook_screen_size != NULL)
    le_mode = LE_MODE_HOOK;
  else
    {
      pl_le_hook_put_char = NULL;
      pl_le_hook_get_char0 = NULL;
      pl_le_hook_kbd_is_not_empty = NULL;
      pl_le_hook_screen_size = NULL;
    }

#define INIT_FCT(hook,def) if (hook == NULL) hook = def

  INIT_FCT(pl_le_hook_screen_size, Pl_LE_Screen_Size);
  INIT_FCT(pl_le_hook_kbd_is_not_empty, Pl_LE_Kbd_Is_Not_Empty);
  INIT_FCT(pl_le_hook_put_char, Pl_LE_Put_Char);
  INIT_FCT(pl_le_hook_get_char0, LE_Get_Char0);
  INIT_FCT(pl_le_hook_ins_mode, Pl_LE_Ins_Mode);
  INIT_FCT(pl_le_hook_emit_beep, Pl_LE_Emit_Beep);

  INIT_FCT(pl_le_hook_backd, Backd);
  INIT_FCT(pl_le_hook_forwd, Forwd);
  INIT_FCT(pl_le_hook_displ, Displ);
  INIT_FCT(pl_le_hook_erase, Erase);
  INIT_FCT(pl_le_hook_displ_str, Displ_Str);

  return le_mode;
}

void ref_Parse_Env_Var(void)
{
  char *p, *q, *r;
  char buff[1024];

  use_gui = 0;

  use_linedit = use_ansi = true;

  p = getenv("LINEDIT");
  if (p == NULL)
    return;

  if (strncmp(p, "no", 2) == 0)
    {
      use_linedit = false;
      return;
    }

  if (strstr(p, "gui=n") != NULL)
    use_gui = 0;

  if (!pl_le_no_gui && strstr(p, "gui=s") != NULL)
    use_gui = 2;

  if (strstr(p, "ansi=n") != NULL)
    use_ansi = false;

  if ((q = strstr(p, "out=")) != NULL)
    {
      q += 4;

      if (isdigit(*p))
        fd_out = strtol(p, NULL, 10);
      else
        {
	  r = buff;
          while(*q && isprint(*q) && !isspace(*q))
            *q++ = *r++;

          *r = '\0';
          fd_out = open(buff, O_WRONLY);
        }
    }

  if ((q = strstr(p, "dbg=")) != NULL)
    {
      q += 4;

      r = buff;
      while(*q && isprint(*q) && !isspace(*q))
	*r++ = *q++;

      *r = '\0';
      file_dbg = fopen(buff, "wt");
    }

  return;
}

void ref_Pl_LE_Open_Terminal(void)
{
  fflush(stdout);
  fflush(stderr);

  is_tty_in = !Gtty(fd_in, &old_stty_in);
  is_tty_out = !Gtty(fd_out, &old_stty_out);

  if (is_tty_in)
    {
      interrupt_key = old_stty_in.c_cc[VINTR];
      Set_TTY_Mode(&old_stty_in, &new_stty_in);
      Stty(fd_in, &new_stty_in);
    }
  else
    interrupt_key = KEY_CTRL('C');

  if (is_tty_out)
    {
      Set_TTY_Mode(&old_stty_out, &new_stty_out);
      Stty(fd_out, &new_stty_out);
    }

  Pl_LE_Screen_Size(&nb_rows, &nb_cols);

  same_tty = Same_File(fd_in, fd_out);

  Debug_Printf("Initial size: %dx%d\n", nb_cols, nb_rows);
  Debug_Printf("Same TTY: %d\n", same_tty);

  Install_Resize_Handler();

  term_pos = 0;

}

void ref_Pl_LE_Close_Terminal(void)
{

  if (is_tty_in)
    Stty(fd_in, &old_stty_in);

  if (is_tty_out)
    Stty(fd_out, &old_stty_out);

}

void ref_Choose_Fd_Out(void)
{
  int fd[3] = { 1, 0, 2 };
  int i, try;
  int mask;
  char *p;

  for(i = 0; i < 3 && fd_out < 0; i++)
    {
      try = fd[i];

      if (!isatty(try))
        continue;

      mask = fcntl(try, F_GETFL);
      if ((mask & O_WRONLY) == O_WRONLY || (mask & O_RDWR) == O_RDWR)
        {
          fd_out = try;
          break;
        }

      if ((p = ttyname(try)) != NULL)
	{
	  fd_out = open(p, O_WRONLY);
	  Debug_Printf("found a tty %d name: %s  fd: %d\n", try, p, fd_out);
	  break;
	}
    }

  if (fd_out < 0)
    fd_out = 1;
}

int ref_Same_File(int fd1, int fd2)
{
  struct stat stat1, stat2;

  return (fstat(fd1, &stat1) != -1 && fstat(fd2, &stat2) != -1 &&
    stat1.st_dev == stat2.st_dev && stat1.st_ino == stat2.st_ino);
}

void ref_Set_TTY_Mode(TermIO *old, TermIO *new)
{
  *new = *old;

  new->c_iflag &= ~(INLCR | IGNCR | ICRNL | IXON | IXOFF);
  new->c_oflag = OPOST | ONLCR;
  new->c_lflag &= ~(ICANON | ECHO | ECHONL);
  new->c_cflag |= CS8;

  new->c_cc[VMIN] = 1;
  new->c_cc[VTIME] = 0;

  new->c_cc[VINTR] = -1;

}

void ref_Install_Resize_Handler(void)
{

  struct sigaction act;
  act.sa_sigaction = (void (*)(int, siginfo_t *, void *)) Resize_Handler;
  sigemptyset(&act.sa_mask);
  act.sa_flags = SA_RESTART;
  sigaction(SIGWINCH, &act, NULL);

}

void ref_Resize_Handler(void)
{
  int r, c;
  Pl_LE_Screen_Size(&r, &c);
  if (c > 0 && r > 0 && (r != nb_rows || c != nb_cols))
    {
      Debug_Printf("Resize: %dx%d\n", c, r);
      nb_rows = r;
      nb_cols = c;
      term_pos = (Pl_LE_Get_Current_Position() + Pl_LE_Get_Prompt_Length()) % nb_cols;
    }
}

void ref_Pl_LE_Screen_Size(int *row, int *col)
{

  struct winsize ws;

  if (!is_tty_out)
    {
      *row = *col = 0;
      return;
    }

  ws.ws_row = ws.ws_col = 0;
  if (ioctl(fd_out, TIOCGWINSZ, &ws) == -1 || ws.ws_row == 0 || ws.ws_col == 0)
    {
      int fd = open("/dev/tty", O_RDONLY);
      if (fd != -1)
	{
	  ioctl(fd, TIOCGWINSZ, &ws);
	  close (fd);
	}
    }
  *row = ws.ws_row;
  *col = ws.ws_col;

}

int ref_Pl_LE_Is_Interrupt_Key(int c)
{
  return (c == interrupt_key);
}

int ref_Pl_LE_Kbd_Is_Not_Empty(void)
{

  int nb_not_read;

  ioctl(fd_in, FIONREAD, &nb_not_read);
  return nb_not_read != 0;

}

void ref_Pl_LE_Ins_Mode(int ins_mode)
{
}

void ref_Pl_LE_Emit_Beep(void)
{

  Pl_LE_Put_Char('\a');

}

void ref_Pl_LE_Put_Char(int c)
{

  static char buf[20];
  int n;

  buf[0] = c;
  buf[1] = '\0';

  if (use_ansi)
    {

      if (!same_tty)
	Resize_Handler();

      switch(c)
        {
        case '\b':
          if (term_pos == 0)
            {
	      Debug_Printf("\n++++++ UP\n");
              term_pos = nb_cols - 1;
              sprintf(buf, "\033[A\033[%dC", term_pos);
            }
	  else
	    term_pos--;
          break;

        case '\a':
          break;

        case '\n':
          term_pos = 0;
          break;

        default:

	  if (++term_pos >= nb_cols && nb_cols > 0)
	    {
	      Debug_Printf("\n====== ADD SPACE TO FORCE NEWLINE after char:%c  pos:%d\n", c, term_pos);
	      buf[1] = ' ';
	      buf[2] = '\b';
	      buf[3] = '\0';
	      term_pos = 0;
	    }
        }
    }

  n = strlen(buf);
  if (write(fd_out, buf, strlen(buf)) != n)
    {

      Debug_Printf("ERROR trying to write on fd: %d, errno: %d\n", fd_out, errno);
    }

}

int ref_Pl_LE_Get_Char(void)
{
  int c = GET_CHAR0;

  if (c == 0x1b)
    {
      int esc_c = GET_CHAR0;

      int modif = 0;
      int double_bracket = 0;
      int number[2] = {0, 0};
      int idx_number = 0;

      if (esc_c == 0x1b)
	{
	  modif = 2;
	  esc_c = GET_CHAR0;
	}

      if (esc_c == '[' || esc_c == 'O')
        {
          if ((esc_c = GET_CHAR0) == '[')
	    {
	      esc_c = GET_CHAR0;
	      double_bracket = 1;
	    }
          while(isdigit(esc_c) || esc_c == ';')
            {
	      if (esc_c == ';')
		idx_number = 1 - idx_number;
	      else
		number[idx_number] = number[idx_number] * 10 + esc_c - '0';

	      esc_c = GET_CHAR0;
            }

	  c = number[0];
	  if (number[1])
	    modif |= (number[1] - 1);

	  if (isupper(esc_c))
	    {
	      if (double_bracket)
		c = esc_c - 'A' + 11;
	      else if (esc_c >= 'P')
		c = esc_c - 'P' + 11;
	      else
		c = esc_c;
	    }
	  else if (esc_c == '^')
	    {
	      modif |= KEY_MODIF_CTRL;
	    }
	  else if (esc_c == '$')
	    {
	      modif |= KEY_MODIF_SHIFT;
	    }

	  if (c == 1)
	    c = 'H';
	  else if (c == 4)
	    c = 'F';
	  else if (c >= 25 && c <= 36)
	    {
	      c = c - ((c <= 26 || c == 29) ? 12 : 13);
	      modif |= KEY_MODIF_SHIFT;
	    }

          c = KEY_ID2(modif, c);

        }
      else

        c = KEY_ESC(esc_c);
    }

  return c;
}

int ref_LE_Get_Char0(void)
{

  unsigned char c;

  if (read(fd_in, &c, 1) != 1)
    return KEY_CTRL('D');

  return (int) c;

}

void ref_Backd(int n)
{
  while (n--)
    PUT_CHAR('\b');
}

void ref_Forwd(int n, char *str)
{
  while (n--)
    PUT_CHAR(*str++);
}

void ref_Displ(int n, char *str)
{
  while (n--)
    PUT_CHAR(*str++);
}

void ref_Erase(int n)
{
  int n0 = n;

  while (n--)
    PUT_CHAR(' ');

  BACKD(n0);
}

void ref_Displ_Str(char *str)
{
  while (*str)
    PUT_CHAR(*str++);
}
