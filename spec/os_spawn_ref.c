/* What the functions of os_spawn.c are to do. */
#include "gp_config.h"
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <errno.h>
#include "bool.h"
#include <unistd.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include "pl_long.h"
#include "os_spawn.h"
#include "os_error.h"
#include "../Linedit/linedit.h"
#include "macros_ref.h"

#define OS_SPAWN_FILE

#define TypeFD int
#define NOT_AN_FD -1

Bool Safe_Close(TypeFD fd);
TypeFD Open_Null_Device(Bool for_output);
char ** Pl_Create_Shell_Command(char *cmd);
char ** Pl_Cmd_Line_To_Argv(char *cmd, int *argc);
int Pl_Shell(char *cmd);
int Pl_Spawn(char *arg[]);
Bool Safe_Close(TypeFD fd);
TypeFD Open_Null_Device(Bool for_output);
int Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out, FILE **f_err);
int Pl_Get_Status(int pid);


char ** ref_Pl_Create_Shell_Command(char *cmd)
{
  static char *arg[4];
  char *p;

  if ((p = getenv("SHELL")) != NULL)
    {
      arg[0] = p;
      arg[1] = "-c";
    }
  else
    {

      arg[0] = "/bin/sh";
      arg[1] = "-c";

    }

  if (cmd)
    {
      arg[2] = cmd;
      arg[3] = NULL;
    }
  else
    arg[1] = NULL;

  return arg;
}

char ** ref_Pl_Cmd_Line_To_Argv(char *cmd, int *argc)
{
  static char **arg = NULL;
  static int nb_arg = 0;
  char *p = cmd;
  int i = 0;

  for (;;)
    {
      while (*p == ' ' || *p == '\t')
	p++;

      if (*p == '\0')
	break;

      if (i >= nb_arg)
	{
	  nb_arg += 64;
	  arg = (arg == NULL) ? malloc(nb_arg * sizeof(char *))
	    : realloc(arg, nb_arg * sizeof(char *));
	}
      arg[i++] = p;

      while (*p != ' ' && *p != '\t' && *p != '\0')
	{
	  if (*p == '"')
	  {
	    do
	      p++;
	    while (*p != '"' && *p != '\0');
	    if (*p == '"')
	      p++;
	  }
	  else
	    p++;
	}

      if (*p == '\0')
	break;

      *p++ = '\0';
    }

  arg[i] = NULL;
  if (argc != NULL)
    *argc = i;
  return arg;
}

int ref_Pl_Shell(char *cmd)
{
  return Pl_Spawn(Pl_Create_Shell_Command(cmd));
}

int ref_Pl_Spawn(char *arg[])
{

  int pid;

  fflush(stdout);
  fflush(stderr);

  if (arg[1] == (char *) 1)
    arg = Pl_Cmd_Line_To_Argv(arg[0], NULL);

  pid = fork();

  if (pid == -1)
    return -1;

  if (pid == 0)
    {
      execvp(arg[0], arg);
      exit((errno == ENOENT || errno == ENOTDIR) ? 126 : 127);
    }

  return Pl_Get_Status(pid);

}

Bool ref_Safe_Close(TypeFD fd)
{
  int ret = 0;

  if (fd != NOT_AN_FD)
    {

      while((ret = close(fd)) && errno == EINTR)
	;

    }

  return ret >= 0;
}

TypeFD ref_Open_Null_Device(Bool for_output)
{
  static TypeFD fd_null[2] = {NOT_AN_FD, NOT_AN_FD};
  TypeFD fd = fd_null[for_output];

  if (fd == NOT_AN_FD)
    {

      fd = open("/dev/null", (for_output) ? O_WRONLY : O_RDONLY);
      fd_null[for_output] = fd;

    }

  return fd;
}

int ref_Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out, FILE **f_err)
{
  FILE **file3[3] = { f_in, f_out, f_err };
  Bool merge_out_err = (file3[2] && file3[1] &&
			(file3[2] == file3[1] ||
			 (*file3[2] != M_SPAWN_REDIRECT_CREATE &&
			  *file3[2] == *file3[1])));

  TypeFD pipe3[3][2];
  TypeFD fd;
  int pid, status;
  int i;

  if (arg[1] == (char *) 1)
    arg = Pl_Cmd_Line_To_Argv(arg[0], NULL);

  for(i = 0; i < 3; i++)
    {
      if (file3[i] && (i != 2 || !merge_out_err))
	{
	  if (*file3[i] == M_SPAWN_REDIRECT_CREATE)
	    {
	      if (pipe(pipe3[i]))
		goto err;
	    }
	  else
	    {
	      if (*file3[i] == M_SPAWN_REDIRECT_NULL)
		fd = Open_Null_Device(i != 0);
	      else
		fd = fileno(*file3[i]);

	      if (fd < 0)
		goto err;

	      pipe3[i][0] = (i == 0) ? fd : NOT_AN_FD;
	      pipe3[i][1] = (i == 0) ? NOT_AN_FD : fd;
	    }
	}
    }

  pid = (int) fork();
  if (pid == -1)
    goto err;

  if (pid == 0)
    {
      if (detach)
	setsid();
      for(i = 0; i < 3; i++)
	{
	  if (file3[i])
	    {
	      if (i != 2 || !merge_out_err)
		{

		  TypeFD fd_for_me = pipe3[i][i != 0];
		  TypeFD fd_unused = pipe3[i][i == 0];

		  if ((fd_for_me != i &&
		       (dup2(fd_for_me, i) == -1 || !Safe_Close(fd_for_me)))
		      || !Safe_Close(fd_unused))
		    goto err;
		}
	      else
		{
		  if (dup2(1, 2) == -1)
		    goto err;
		}
	    }
	}

      execvp(arg[0], arg);
      exit((errno == ENOENT || errno == ENOTDIR) ? 126 : 127);
    }

  if (detach)
    {
      if (waitpid(pid, &status, 0) < 0)
	goto err;
      pid = 0;
    }

  for(i = 0; i < 3; i++)
    {
      if (file3[i] && *file3[i] == M_SPAWN_REDIRECT_CREATE &&
	  (i != 2 || !merge_out_err))
	{
	  TypeFD fd_for_me = pipe3[i][i == 0];
	  TypeFD fd_unused = pipe3[i][i != 0];
	  char *mode = (i == 0) ? "wt" : "rt";

	  if (!Safe_Close(fd_unused) ||
	      (*file3[i] = fdopen(fd_for_me, mode)) == NULL)
	    goto err;
	}
    }

  return pid;

 err:
  return -1;

}

int ref_Pl_Get_Status(int pid)
{
  int status = 0;

  if (waitpid(pid, &status, 0) < 0)
    return -1;

  if (WIFEXITED(status))
    {
      status = WEXITSTATUS(status);
      if (status == 127)
	status = -2;
      else if (status == 126)
	{
	  status = -1;
	  errno = ENOENT;
	}
    }

  return status;
}
