/* What the functions of stacks_sigsegv.c are to do. */
#include "gp_config.h"

#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <ctype.h>
#include <string.h>
#include <time.h>

#include <sys/stat.h>

#include <unistd.h>

#include "engine_pl.h"

#include <sys/mman.h>
#include "macros_ref.h"
#include "wam_ref.h"

#define M_MAGIC1 0x12345678
#define M_MAGIC2 0xdeadbeef

#define MMAP_HIGH_ADR1 0x4000000000ULL

#define MAX_SIGSEGV_HANDLER 10

#define ERR_STACKS_ALLOCATION "Memory allocation fault"

#define ERR_CANNOT_OPEN_DEV0 "Cannot open /dev/zero : %s"
#define ERR_CANNOT_UNMAP "unmap failed : %s"

#define ERR_CANNOT_FREE "VirtualFree failed : %" PL_FMT_u
#define ERR_CANNOT_PROTECT "VirtualProtect failed : %" PL_FMT_u

#define ERR_STACK_OVERFLOW_ENV "%s stack overflow (size: %" PL_FMT_d " Kb, environment variable used: %s)"

#define ERR_STACK_OVERFLOW_NO_ENV "%s stack overflow (size: %" PL_FMT_d " Kb - fixed size)"

extern int page_size;

extern SegvHdlr tbl_handler[MAX_SIGSEGV_HANDLER];
extern int nb_handler;

void Install_SIGSEGV_Handler(void);

void Handle_Bad_Address(void *bad_addr);

int Default_SIGSEGV_Handler(void *bad_addr);

char *Stack_Overflow_Err_Msg(int stk_nb);

#define Round_Up(x,y) (((x) + (y) - 1) / (y) * (y))

#define Round_Down(x,y) ((x) / (y) * (y))
void * Virtual_Mem_Alloc(void *addr, size_t length);
void Virtual_Mem_Protect(void *addr, size_t length);
void Pl_Allocate_Stacks(void);
void SIGSEGV_Handler(int sig, siginfo_t *sip, void *ctx);
void Install_SIGSEGV_Handler(void);
void Handle_Bad_Address(void *bad_addr);
void Pl_Push_SIGSEGV_Handler(SegvHdlr handler);
void Pl_Pop_SIGSEGV_Handler(void);
int Default_SIGSEGV_Handler(void *bad_addr);
char * Stack_Overflow_Err_Msg(int stk_nb);


void * ref_Virtual_Mem_Alloc(void *addr, size_t length)
{

  addr = (void *) mmap((void *) addr, length, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE

                          | MAP_ANON, -1,

                          0);

  if (addr == (void *) -1)
    addr = NULL;

  return addr;
}

void ref_Virtual_Mem_Protect(void *addr, size_t length)
{
  WamWord *end = (WamWord *) addr;

  if (mprotect((void *) addr, length, PROT_NONE) == -1)

    if (munmap((void *) addr, length) == -1)
      Pl_Fatal_Error(ERR_CANNOT_UNMAP, Pl_Sys_Err_String(errno));

  end[-16] = M_MAGIC1;
  end[-32] = M_MAGIC2;
  end[-33] = 0;
}

void ref_Pl_Allocate_Stacks(void)
{
  size_t length = 0, stk_sz;
  WamWord *addr;
  int i;
  WamWord *addr_to_try[] = {

    NULL,

    (WamWord *) MMAP_HIGH_ADR1,

    (WamWord *) -1 };

  page_size = getpagesize() / sizeof(WamWord);

  for (i = 0; i < NB_OF_STACKS; i++)
    {
      stk_sz = pl_stk_tbl[i].size = Round_Up(pl_stk_tbl[i].size, page_size);
      if (stk_sz == 0)
	stk_sz = page_size;
      length += stk_sz + page_size;
    }
  length *= sizeof(WamWord);

  addr = NULL;
  for(i = 0; addr == NULL && addr_to_try[i] != (WamWord *) -1; i++)
    {
      addr = addr_to_try[i];

      if (addr)
        {
          addr = (WamWord *) Round_Down((PlULong) addr, getpagesize());
          addr = (WamWord *) ((PlULong) (addr) - length);
        }

      addr = Virtual_Mem_Alloc(addr, length);

    }

  if (addr == NULL)
    Pl_Fatal_Error(ERR_STACKS_ALLOCATION);

  for (i = 0; i < NB_OF_STACKS; i++)
    {
      pl_stk_tbl[i].stack = addr;
      stk_sz = pl_stk_tbl[i].size;
      if (stk_sz == 0)
	stk_sz = page_size;

      addr += stk_sz;
      Virtual_Mem_Protect(addr, page_size * sizeof(WamWord));
      addr += page_size;
    }

  Install_SIGSEGV_Handler();
  Pl_Push_SIGSEGV_Handler(Default_SIGSEGV_Handler);

}

void ref_SIGSEGV_Handler(int sig, siginfo_t *sip, void *ctx)
{
  void *addr = (void *) sip->si_addr;
  Handle_Bad_Address(addr);
}

void ref_Install_SIGSEGV_Handler(void)
{

  struct sigaction act;

  act.sa_sigaction = SIGSEGV_Handler;
  sigemptyset(&act.sa_mask);
  act.sa_flags = SA_SIGINFO | SA_RESTART;

  sigaction(SIGSEGV, &act, NULL);

  sigaction(SIGBUS, &act, NULL);

}

void ref_Handle_Bad_Address(void *bad_addr)
{
  int i = nb_handler;

  while(--i >= 0)
    {
      if ((*tbl_handler[i])(bad_addr))
	return;

    }

  Pl_Fatal_Error("Segmentation Violation at: %p", bad_addr);
  exit(1);
}

void ref_Pl_Push_SIGSEGV_Handler(SegvHdlr handler)
{
  if (nb_handler >= MAX_SIGSEGV_HANDLER)
    Pl_Fatal_Error("too many SIGSEGV handlers (max: %d)", MAX_SIGSEGV_HANDLER);

  tbl_handler[nb_handler++] = handler;
}

void ref_Pl_Pop_SIGSEGV_Handler(void)
{
  if (nb_handler > 0)
    nb_handler--;
}

int ref_Default_SIGSEGV_Handler(void *bad_addr)
{

  int i;
  WamWord *addr = (WamWord *) bad_addr;

  for(i = 0; i < NB_OF_STACKS; i++)
    {
      WamWord *start = pl_stk_tbl[i].stack;
      WamWord *end = start + pl_stk_tbl[i].size;

      if (addr >= end && addr < end + page_size)
	{

	  Pl_Fatal_Error(Stack_Overflow_Err_Msg(i));
	}
    }

  Pl_Fatal_Error("Segmentation Violation (bad address: %p)", addr);

  return 1;
}

char * ref_Stack_Overflow_Err_Msg(int stk_nb)
{
  InfStack *s = pl_stk_tbl + stk_nb;
  char *var = s->env_var_name;
  PlLong size = s->size;
  static char msg[128];

  if (s->stack == Global_Stack)
    size += REG_BANK_SIZE;

  size = Wam_Words_To_KBytes(size);

  if (pl_fixed_sizes || var[0] == '\0')
    sprintf(msg, ERR_STACK_OVERFLOW_NO_ENV, s->name, size);
  else
    sprintf(msg, ERR_STACK_OVERFLOW_ENV, s->name, size, var);

  return msg;
}
