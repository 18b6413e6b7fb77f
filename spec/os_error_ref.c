/* What the functions of os_error.c are to do. */
#include <stdio.h>
#include "gp_config.h"
#include <string.h>
#include <errno.h>
#include "os_error.h"
#include "macros_ref.h"

#define UNKNOWN_SYS_ERRNO "Unknown error (%d)"
char * Pl_Sys_Err_String(int err_no);


char * ref_Pl_Sys_Err_String(int err_no)
{

  char *str;
  static char buff[64];

  str = strerror(err_no);

  if (str)
    return str;

  sprintf(buff, UNKNOWN_SYS_ERRNO, err_no);
  return buff;
}
