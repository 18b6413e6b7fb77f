/* What the functions of machine.c are to do. */
#include "gp_config.h"
#include <stdlib.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <ctype.h>
#include <string.h>
#include <time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <pwd.h>
#include <unistd.h>
#include <sys/param.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include "engine_pl.h"
#include <malloc.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include "macros_ref.h"
#include "wam_ref.h"

#define INET_MANAGEMENT

extern PlLong start_user_time;
extern PlLong start_system_time;
extern PlLong start_real_time;

extern unsigned int cur_seed;

char *Host_Name_From_Alias(struct hostent *host_entry);

#define Round_Up(x,y) (((x) + (y) - 1) / (y) * (y))

#define Round_Down(x,y) ((x) / (y) * (y))
void Pl_Init_Machine(void);
PlLong Pl_User_Time(void);
PlLong Pl_System_Time(void);
PlLong Pl_Real_Time(void);
void Pl_Randomize(void);
void Pl_Set_Seed(unsigned int n);
unsigned int Pl_Get_Seed(void);
PlLong Pl_Random_Integer(PlLong n);
double Pl_Random_Float(double n);
char * Pl_Host_Name_From_Name(char *host_name);
char * Pl_Host_Name_From_Adr(char *host_address);
char * Host_Name_From_Alias(struct hostent *host_entry);
unsigned int ref_cur_seed = 1;

void ref_Pl_Init_Machine(void)
{
  tzset();

  start_user_time = Pl_User_Time();
  start_system_time = Pl_System_Time();
  start_real_time = Pl_Real_Time();

  mallopt(M_MMAP_MAX, 0);

}

PlLong ref_Pl_User_Time(void)
{
  PlLong user_time;

  struct rusage rsr_usage;

  getrusage(RUSAGE_SELF, &rsr_usage);

  user_time = (rsr_usage.ru_utime.tv_sec * 1000) +
    (rsr_usage.ru_utime.tv_usec / 1000);

  return user_time - start_user_time;
}

PlLong ref_Pl_System_Time(void)
{
  PlLong system_time;

  struct rusage rsr_usage;

  getrusage(RUSAGE_SELF, &rsr_usage);

  system_time = (rsr_usage.ru_stime.tv_sec * 1000) +
    (rsr_usage.ru_stime.tv_usec / 1000);

  return system_time - start_system_time;
}

PlLong ref_Pl_Real_Time(void)
{
  PlLong real_time;

  struct timeval tv;

  gettimeofday(&tv, NULL);
  real_time = (tv.tv_sec * 1000) + (tv.tv_usec / 1000);

  return real_time - start_real_time;
}

void ref_Pl_Randomize(void)
{
  static unsigned int count = 0;
  unsigned int seed;

  struct timeval tv;

  gettimeofday(&tv, NULL);
  seed = (tv.tv_sec * 1000) + (tv.tv_usec / 1000);

  count++;
  seed ^= (unsigned int) getpid();
  seed ^= count * 0x9e3779b1U;

  seed *= 0x85ebca6bU;
  seed ^= seed >> 13;
  seed *= 0xc2b2ae35U;
  seed ^= seed >> 16;

  seed %= INT_GREATEST_VALUE;

  Pl_Set_Seed(seed);
}

void ref_Pl_Set_Seed(unsigned int n)
{
  cur_seed = n;
  srand(cur_seed);
}

unsigned int ref_Pl_Get_Seed(void)
{
  return cur_seed;
}

PlLong ref_Pl_Random_Integer(PlLong n)
{
  return (PlLong) ((double) n * rand() / (RAND_MAX + 1.0));
}

double ref_Pl_Random_Float(double n)
{
  return n * rand() / (RAND_MAX + 1.0);
}

char * ref_Pl_Host_Name_From_Name(char *host_name)
{
  static char buff[4096];

  struct hostent *host_entry;

  if (host_name == NULL)
    {
      PlLong length = sizeof(buff);
      host_name = buff;

	if (gethostname(buff, (int) length))

        {
          strcpy(buff, "unknown host name");
          goto finish;
        }
    }

  if (strchr(host_name, '.') != NULL)
    goto finish;

  host_entry = gethostbyname(host_name);
  if (host_entry == NULL)
    goto finish;

  host_name = Host_Name_From_Alias(host_entry);

finish:
  return host_name;
}

char * ref_Pl_Host_Name_From_Adr(char *host_address)
{

  struct hostent *host_entry;
  struct in_addr iadr;

  if (inet_aton(host_address, &iadr) == 0)

    return FALSE;

  host_entry = gethostbyaddr((char *) &iadr, sizeof(iadr), AF_INET);
  if (host_entry == NULL)
    return NULL;

  return Host_Name_From_Alias(host_entry);

}

char * ref_Host_Name_From_Alias(struct hostent *host_entry)
{
  char *name;
  char **alias;
  char *p;

  name = (char *) host_entry->h_name;
  alias = host_entry->h_aliases;
  while ((p = strchr(name, '.')) == NULL && *alias)
    name = *alias++;

  if (p)
    return name;

  return (char *) host_entry->h_name;
}
