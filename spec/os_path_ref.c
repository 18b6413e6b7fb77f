/* What the functions of os_path.c are to do. */
#include <stdio.h>
#include "gp_config.h"
#include <stdlib.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <ctype.h>
#include <string.h>
#include <time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <strings.h>
#include <pwd.h>
#include <unistd.h>
#include <sys/param.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include "pl_long.h"
#include "bool.h"
#include "winsup.h"
#include "os_path.h"
#include "macros_ref.h"

#define OS_PATH_FILE

Bool Is_Executable(const char *path);

char *Get_Prolog_Path_From_Exec(char *path, Bool *devel_mode);
Bool Is_A_Valid_Root(char *str, Bool *devel_mode);

#define COMPILER_EXE GPLC EXE_SUFFIX

#define Has_Drive_Specif(str) (((*(str) >= 'a' && *(str) <= 'z') || (*(str) >= 'A' && *(str) <= 'Z')) && (str)[1] == ':')
char * Pl_Get_Prolog_Path(char *argv0, Bool *devel_mode);
char * Get_Prolog_Path_From_Exec(char *path, Bool *devel_mode);
Bool Is_A_Valid_Root(char *path, Bool *devel_mode);
char * Pl_Search_Path(char *exe_file);
Bool Is_Executable(const char *path);
char * Pl_Get_Working_Dir(void);
Bool Pl_Set_Working_Dir(char *path);
char * Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash);
Bool Pl_Is_Absolute_File_Name(char *path);
char * Pl_Decompose_File_Name(char *path, Bool del_trail_slashes, char **base, char **suffix);
Bool Pl_Path_Ends_With_Dir(char *path);
int Pl_Is_Dir_Name(char *path, Bool inexistent_as_error);
char * Pl_Mktemp(char *tmpl);
char * Pl_Tempnam(char *dir, char *pfx);


char * ref_Pl_Get_Prolog_Path(char *argv0, Bool *devel_mode)
{
  static char *prolog_path_cache = NULL;
  static Bool devel_mode_cache = FALSE;
  static char resolved[MAXPATHLEN];
  char *p;

  if (prolog_path_cache != NULL)
    {
      *devel_mode = devel_mode_cache;
      strcpy(resolved, prolog_path_cache);
      return resolved;
    }

  if ((p = getenv(ENV_VARIABLE)) != NULL)
    {
      strcpy(resolved, p);

      p = resolved;
      if (Is_A_Valid_Root(resolved, devel_mode))
        goto ok;
    }

  if (argv0 != NULL &&
      (p = Get_Prolog_Path_From_Exec(argv0, devel_mode)) != NULL)
    {

      goto ok;
    }

  if ((p = Pl_Search_Path(COMPILER_EXE)) == NULL)
    {
      return NULL;
    }

  if ((p = Get_Prolog_Path_From_Exec(p, devel_mode)) == NULL)
    return NULL;

 ok:
  strcpy(resolved, Pl_Absolute_Path_Name(p));
  devel_mode_cache = *devel_mode;
  prolog_path_cache = strdup(resolved);

  return resolved;
}

char * ref_Get_Prolog_Path_From_Exec(char *path, Bool *devel_mode)
{
  static char resolved[MAXPATHLEN];
  char *p;

  if (*path == '\0' || realpath(path, resolved) == NULL)
    return NULL;

  p = resolved + strlen(resolved) - 1;
  while (p > resolved && !Is_Dir_Sep(*p))
    p--;

  if (p == resolved)
    return NULL;

  while (p > resolved && Is_Dir_Sep(*p))
    p--;

  if (p == resolved)
    return NULL;

  while (p > resolved && !Is_Dir_Sep(*p))
    p--;

  if (p == resolved)
    return NULL;

  p[1] = '\0';

  if (Is_A_Valid_Root(resolved, devel_mode))
    return resolved;
  return NULL;
}

Bool ref_Is_A_Valid_Root(char *path, Bool *devel_mode)
{
  char *p;

  p = path + strlen(path) - 1;

  while (p >= path && Is_Dir_Sep(*p))
    p--;

  p++;
  if (p == path)
    goto invalid;

  strcpy(p, DIR_SEP_S "bin" DIR_SEP_S COMPILER_EXE);
  if (Is_Executable(path))
    {
      *p = '\0';
      *devel_mode = FALSE;
    valid:

      return TRUE;
    }

  strcpy(p, DIR_SEP_S "TopComp");
  if (access(path, F_OK) == 0)
    {
      *p = '\0';
      *devel_mode = TRUE;

      goto valid;
    }

 invalid:

  return FALSE;
}

char * ref_Pl_Search_Path(char *exe_file)
{

  char *path = getenv("PATH");
  char *p;
  int l;
  static char buff[MAXPATHLEN];

  if (path == NULL)
    return NULL;

  p = path;
  for (;;)
    {
      if ((p = strchr(path, ':')) != NULL)
        {
          l = p - path;
          strncpy(buff, path, l);
        }
      else
        {
          strcpy(buff, path);
          l = strlen(buff);
        }

      buff[l++] = DIR_SEP_C;

      strcpy(buff + l, exe_file);

      if (Is_Executable(buff))
        return buff;

      if (p == NULL)
        break;

      path = p + 1;
    }

  return NULL;

}

Bool ref_Is_Executable(const char *path)
{

  int mode = X_OK;

  return (access(path, mode) == 0);
}

char * ref_Pl_Get_Working_Dir(void)
{
  static char cur_work_dir[MAXPATHLEN];

  if (getcwd(cur_work_dir, sizeof(cur_work_dir) - 1) == NULL)
    strcpy(cur_work_dir, ".");
  return cur_work_dir;
}

Bool ref_Pl_Set_Working_Dir(char *path)
{
  char *new_path = Pl_Absolute_Path_Name(path);

  return (new_path != NULL && chdir(new_path) == 0);
}

#pragma GCC diagnostic push

#pragma GCC diagnostic ignored "-Wformat-overflow"

char * ref_Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
{
  static char buff1[MAXPATHLEN];
  static char buff2[MAXPATHLEN];
  char *src = path;
  char *dst;
  char *p, *q;
  char c;
  Bool add_slash = FALSE;

#define SWAP_SRC_DST { char *tmp = src; src = dst; dst = tmp; }

  dst = buff1;
  while ((*dst++ = *src))
    {
      c = *src++;
      if (c == '$'

	  )
        {
          p = dst;
          while (isalnum(*src) || *src == '_')
            *dst++ = *src++;

          *dst = '\0';
          q = getenv(p);
          if (q)
            {
              p--;
              strcpy(p, q);
              dst = p + strlen(p);

            }

        }
    }
  *dst = '\0';

  src = buff1;
  dst = buff2;

  if (src[0] == '~')
    {
      if (Is_Dir_Sep(src[1]) || src[1] == '\0')
        {
	  q = "";
          if ((p = getenv("HOME")) == NULL)
	    {
	      return NULL;

	    }
          sprintf(dst, "%s%s/%s", q, p, src + 1);
	  SWAP_SRC_DST;
        }

      else
        {
          struct passwd *pw;

          p = src + 1;
          while (*p && !Is_Dir_Sep(*p))
            p++;

          src[0] = *p;
          *p = '\0';
          if ((pw = getpwnam(src + 1)) == NULL)
            return NULL;

          *p = src[0];

          sprintf(dst, "%s/%s", pw->pw_dir, p);
	  SWAP_SRC_DST;
        }

    }

  if (strcmp(src, "user") == 0)
    return src;

  if (*src == '\0')
    return NULL;

  add_slash = (!del_trail_slash && Pl_Path_Ends_With_Dir(src));

  if (src[0] != '/')
    {
      sprintf(dst, "%s/%.*s", Pl_Get_Working_Dir(),
	      MAXPATHLEN, src);
      SWAP_SRC_DST;
    }

  p = dst;
  while ((*p++ = *src))
    {
      if (*src++ != '/')
        continue;

    collapse:
      while (*src == '/')
        src++;

      if (*src != '.')
        continue;

      if (src[1] == '/' || src[1] == '\0')
        {
          src++;
          goto collapse;
        }

      if (src[1] != '.' || (src[2] != '/' && src[2] != '\0'))
        continue;

      src += 2;
      p -= 2;
      while (p >= dst && *p != '/')
        p--;

      if (p < dst)
        return NULL;
    }

  p--;

#define MIN_PREFIX 1

  if (p - dst < MIN_PREFIX)
    strcpy(p, "/");
  else
    {
      if (p - dst > MIN_PREFIX && Is_Dir_Sep(p[-1]))
	*--p = '\0';

      if (add_slash)
	strcpy(p, "/");
    }

  return dst;
}

#pragma GCC diagnostic pop

Bool ref_Pl_Is_Absolute_File_Name(char *path)
{
  if (Is_Dir_Sep(*path))
    return TRUE;

  return FALSE;
}

char * ref_Pl_Decompose_File_Name(char *path, Bool del_trail_slashes, char **base, char **suffix)
{
  static char buff_dir[MAXPATHLEN];
  static char buff_base[MAXPATHLEN];
  size_t dir_start_pos = 0;

  char *p;

  strcpy(buff_dir, path);

  Find_Last_Dir_Sep(p, buff_dir);

  p = (p == NULL) ? buff_dir + dir_start_pos : p + 1;

  strcpy(buff_base, p);
  *p = '\0';

  if ((p = strrchr(buff_base, '.')) != NULL)
    *suffix = p;
  else
    *suffix = buff_base + strlen(buff_base);

  if (del_trail_slashes)
    {
      if (buff_dir[dir_start_pos] == '\0')
	strcat(buff_dir, ".");
      else
	{
	  size_t len = strlen(buff_dir);
	  while(--len >= dir_start_pos && Is_Dir_Sep(buff_dir[len]))
	    ;

	  if (len < dir_start_pos)
	    len = dir_start_pos;
	  buff_dir[len + 1] = '\0';
	}
    }

  *base = buff_base;

  return buff_dir;
}

Bool ref_Pl_Path_Ends_With_Dir(char *path)
{
  size_t len = strlen(path);
  return ((len > 1 && Is_Dir_Sep(path[len - 1])) ||
	  (len > 2 && Is_Dir_Sep(path[len - 2]) && path[len - 1] == '.') ||
	  (len > 3 && Is_Dir_Sep(path[len - 3]) && path[len - 2] == '.' && path[len - 1] == '.'));
}

int ref_Pl_Is_Dir_Name(char *path, Bool inexistent_as_error)
{
  struct stat file_info;

  if (stat(path, &file_info) < 0)
    {
      if ((errno != ENOENT && errno != ENOTDIR) || inexistent_as_error)
	return -1;

      return Pl_Path_Ends_With_Dir(path);
    }

  return S_ISDIR(file_info.st_mode);
}

char * ref_Pl_Mktemp(char *tmpl)
{

  struct timeval tv;
  int len;
  char *XXXXXX;
  static PlULong value;
  int count;
  struct stat buf;
  static const char letters[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

  len = strlen (tmpl);
  if (len < 6 || strcmp(&tmpl[len - 6], "XXXXXX"))
    {
      errno = EINVAL;
      return NULL;
    }

  XXXXXX = &tmpl[len - 6];

  gettimeofday (&tv, NULL);
  value += ((PlULong) tv.tv_usec << 16) ^ tv.tv_sec ^ getpid ();
  value ^= (PlULong) 0x9e3779b1;

  for (count = 0; count < TMP_MAX; value += 7777, ++count)
    {
      PlULong v = value;

      XXXXXX[0] = letters[v % 62];
      v /= 62;
      XXXXXX[1] = letters[v % 62];
      v /= 62;
      XXXXXX[2] = letters[v % 62];
      v /= 62;
      XXXXXX[3] = letters[v % 62];
      v /= 62;
      XXXXXX[4] = letters[v % 62];
      v /= 62;
      XXXXXX[5] = letters[v % 62];

      if (lstat(tmpl, &buf) < 0)
	{
	  if (errno == ENOENT)
	    {
	      errno = 0;
	      return tmpl;
	    }
	  else

	    return NULL;
	}
    }

  errno = EEXIST;
  return NULL;

}

char * ref_Pl_Tempnam(char *dir, char *pfx)
{

  char tmpl[MAXPATHLEN];
  char *d;
  int dlen, plen;
  struct stat buf;

#define Dir_Exists(dir) (stat(dir, &buf) == 0 && S_ISDIR (buf.st_mode))

  if (!pfx || !pfx[0])
    {
      pfx = "file";
      plen = 4;
    }
  else
    {
      plen = strlen(pfx);
      if (plen > 5)
        plen = 5;
    }

  if ((d = getenv("TMPDIR")) != NULL && Dir_Exists(d))
    dir = d;
  else if (dir != NULL && Dir_Exists(dir))
      ;
  else
    dir = NULL;

  if (dir == NULL)
    {
      if (Dir_Exists(P_tmpdir))
        dir = P_tmpdir;
      else if (strcmp(P_tmpdir, "/tmp") != 0 && Dir_Exists("/tmp"))
        dir = "/tmp";
      else
        {
          errno = ENOENT;
          return NULL;
        }
    }

  dlen = strlen(dir);
  while (dlen > 1 && dir[dlen - 1] == '/')
    dlen--;

  if (MAXPATHLEN < dlen + 1 + plen + 6 + 1)
    {
      errno = EINVAL;
      return NULL;
    }

  sprintf(tmpl, "%.*s/%.*sXXXXXX", dlen, dir, plen, pfx);
  d = Pl_Mktemp(tmpl);
  if (d)
    d = strdup(d);
  return d;

}
