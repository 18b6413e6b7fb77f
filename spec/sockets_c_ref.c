/* What the functions of sockets_c.c are to do. */
#include "gp_config.h"
#include <string.h>
#include <errno.h>
#include <sys/types.h>
#include <unistd.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define SUPPORT_AF_UNIX

extern int atom_AF_UNIX;

extern int atom_AF_INET;

Bool Create_Socket_Streams(int sock, char *stream_name, int *stm_in, int *stm_out);
Bool Pl_Socket_2(WamWord domain_word, WamWord socket_word);
Bool Pl_Socket_Close_1(WamWord socket_word);
Bool Pl_Socket_Bind_2(WamWord socket_word, WamWord address_word);
Bool Pl_Socket_Connect_4(WamWord socket_word, WamWord address_word, WamWord stm_in_word, WamWord stm_out_word);
Bool Pl_Socket_Listen_2(WamWord socket_word, WamWord length_word);
Bool Pl_Socket_Accept_4(WamWord socket_word, WamWord client_word, WamWord stm_in_word, WamWord stm_out_word);
Bool Pl_Assoc_Socket_Streams_3(WamWord socket_word, WamWord stm_in_word, WamWord stm_out_word);
Bool Create_Socket_Streams(int sock, char *stream_name, int *stm_in, int *stm_out);
Bool Pl_Hostname_Address_2(WamWord host_name_word, WamWord host_address_word);


void ref_Socket_Initializer(void)
{

  atom_AF_UNIX = Pl_Create_Atom("AF_UNIX");

  atom_AF_INET = Pl_Create_Atom("AF_INET");

}

Bool ref_Pl_Socket_2(WamWord domain_word, WamWord socket_word)
{
  int domain;
  int opt;

  int sock;
  int proto = 0;

  domain = Pl_Rd_Atom_Check(domain_word);
  if (

      domain != atom_AF_UNIX &&

      domain != atom_AF_INET)
    Pl_Err_Domain(pl_domain_socket_domain, domain_word);

  Pl_Check_For_Un_Variable(socket_word);

  if (domain == atom_AF_UNIX)
    sock = socket(AF_UNIX, SOCK_STREAM, proto);
  else

    sock = socket(AF_INET, SOCK_STREAM, proto);

  Os_Test_Error(sock);

  opt = 1;
  Os_Test_Error(setsockopt(sock, SOL_SOCKET, SO_REUSEADDR, (const void *) &opt, sizeof(opt)));

  return Pl_Get_Integer(sock, socket_word);
}

Bool ref_Pl_Socket_Close_1(WamWord socket_word)
{

  int sock;

  sock = Pl_Rd_C_Int_Check(socket_word);
  if (sock < 2)
    {
      errno = EBADF;
      Os_Test_Error(-1);
    }
  else

    Os_Test_Error(close(sock));

  return TRUE;
}

Bool ref_Pl_Socket_Bind_2(WamWord socket_word, WamWord address_word)
{
  WamWord word, tag_mask;
  WamWord *stc_adr;
  int sock;
  int port;
  socklen_t l;

  char *path_name;
  struct sockaddr_un adr_un;

  struct sockaddr_in adr_in;
  static int atom_host_name = -1;

  sock = Pl_Rd_C_Int_Check(socket_word);

  DEREF(address_word, word, tag_mask);

  if (tag_mask == TAG_REF_MASK)
    Pl_Err_Instantiation();

  if (tag_mask != TAG_STC_MASK)
    {
    err_domain:
      Pl_Err_Domain(pl_domain_socket_address, word);
    }

  stc_adr = UnTag_STC(word);

  if (Functor_Arity(atom_AF_UNIX, 1) == Functor_And_Arity(stc_adr))
    {
      path_name = Pl_Rd_String_Check(Arg(stc_adr, 0));
      if ((path_name = Pl_Absolute_Path_Name(path_name)) == NULL)
	Pl_Err_Domain(pl_domain_os_path, Arg(stc_adr, 0));

      adr_un.sun_family = AF_UNIX;
      strcpy(adr_un.sun_path, path_name);
      unlink(path_name);
      Os_Test_Error(bind(sock, (struct sockaddr *) &adr_un, sizeof(adr_un)));
      return TRUE;
    }

  if (Functor_Arity(atom_AF_INET, 2) != Functor_And_Arity(stc_adr))
    goto err_domain;

  DEREF(Arg(stc_adr, 0), word, tag_mask);
  if (tag_mask == TAG_REF_MASK)
    {
      if (atom_host_name < 0)
	atom_host_name = Pl_Create_Allocate_Atom(Pl_Host_Name_From_Name(NULL));

      Pl_Get_Atom(atom_host_name, word);
    }
  else
    Pl_Rd_Atom_Check(word);

  port = 0;
  DEREF(Arg(stc_adr, 1), word, tag_mask);
  if (tag_mask != TAG_REF_MASK)
    port = Pl_Rd_C_Int_Check(word);

  adr_in.sin_port = htons((unsigned short) port);
  adr_in.sin_family = AF_INET;
  adr_in.sin_addr.s_addr = INADDR_ANY;

  Os_Test_Error(bind(sock, (struct sockaddr *) &adr_in, sizeof(adr_in)));
  if (tag_mask == TAG_INT_MASK)
    return TRUE;

  l = sizeof(adr_in);
  Os_Test_Error(getsockname(sock, (struct sockaddr *) &adr_in, &l));

  port = ntohs(adr_in.sin_port);

  return Pl_Get_Integer(port, word);
}

Bool ref_Pl_Socket_Connect_4(WamWord socket_word, WamWord address_word, WamWord stm_in_word, WamWord stm_out_word)
{
  WamWord word, tag_mask;
  WamWord *stc_adr;
  int sock;
  int port;
  char *host_name;

  char *path_name;
  struct sockaddr_un adr_un;

  struct sockaddr_in adr_in;
  struct hostent *host_entry;
  int stm_in, stm_out;
  char stream_name[256];

  sock = Pl_Rd_C_Int_Check(socket_word);

  DEREF(address_word, word, tag_mask);

  if (tag_mask == TAG_REF_MASK)
    Pl_Err_Instantiation();

  if (tag_mask != TAG_STC_MASK)
    {
    err_domain:
      Pl_Err_Domain(pl_domain_socket_address, word);
    }

  stc_adr = UnTag_STC(word);

  if (Functor_Arity(atom_AF_UNIX, 1) == Functor_And_Arity(stc_adr))
    {
      path_name = Pl_Rd_String_Check(Arg(stc_adr, 0));
      if ((path_name = Pl_Absolute_Path_Name(path_name)) == NULL)
	Pl_Err_Domain(pl_domain_os_path, Arg(stc_adr, 0));

      adr_un.sun_family = AF_UNIX;
      strcpy(adr_un.sun_path, path_name);
      Os_Test_Error(connect(sock, (struct sockaddr *) &adr_un, sizeof(adr_un)));
      sprintf(stream_name, "socket_stream(connect('AF_UNIX'('%s')),%d)", path_name, sock);

      goto create_streams;
    }

  if (Functor_Arity(atom_AF_INET, 2) != Functor_And_Arity(stc_adr))
    goto err_domain;

  host_name = Pl_Rd_String_Check(Arg(stc_adr, 0));
  port = Pl_Rd_C_Int_Check(Arg(stc_adr, 1));

  host_entry = gethostbyname(host_name);
  if (host_entry == NULL)
    return FALSE;

  adr_in.sin_family = AF_INET;
  adr_in.sin_port = htons((unsigned short) port);
  memcpy(&adr_in.sin_addr, host_entry->h_addr_list[0], host_entry->h_length);

  Os_Test_Error(connect(sock, (struct sockaddr *) &adr_in, sizeof(adr_in)));
  sprintf(stream_name, "socket_stream(connect('AF_INET'('%s',%d)),%d)",
	  host_name, port, sock);

create_streams:

  if (!Create_Socket_Streams(sock, stream_name, &stm_in, &stm_out))
    return FALSE;

  Pl_Get_Integer(stm_in, stm_in_word);
  Pl_Get_Integer(stm_out, stm_out_word);
  return TRUE;
}

Bool ref_Pl_Socket_Listen_2(WamWord socket_word, WamWord length_word)
{
  int sock;
  int length;

  sock = Pl_Rd_C_Int_Check(socket_word);
  length = Pl_Rd_C_Int_Check(length_word);

  Os_Test_Error(listen(sock, length));
  return TRUE;
}

Bool ref_Pl_Socket_Accept_4(WamWord socket_word, WamWord client_word, WamWord stm_in_word, WamWord stm_out_word)
{
  int sock, cli_sock;
  socklen_t l;
  struct sockaddr_in adr_in;
  int stm_in, stm_out;
  char *cli_ip_adr = "AF_UNIX";
  char stream_name[256];

  l = sizeof(adr_in);
  sock = Pl_Rd_C_Int_Check(socket_word);

  cli_sock = (int) accept(sock, (struct sockaddr *) &adr_in, &l);

  Os_Test_Error(cli_sock);

  if (adr_in.sin_family == AF_INET)
    {
      cli_ip_adr = inet_ntoa(adr_in.sin_addr);
      if (cli_ip_adr == NULL)
	return FALSE;
      Pl_Get_Atom(Pl_Create_Allocate_Atom(cli_ip_adr), client_word);
    }

  sprintf(stream_name, "socket_stream(accept('%s'),%d)", cli_ip_adr, cli_sock);

  if (!Create_Socket_Streams(cli_sock, stream_name, &stm_in, &stm_out))
    return FALSE;

  Pl_Get_Integer(stm_in, stm_in_word);
  Pl_Get_Integer(stm_out, stm_out_word);
  return TRUE;
}

Bool ref_Pl_Assoc_Socket_Streams_3(WamWord socket_word, WamWord stm_in_word, WamWord stm_out_word)
{
  int stm_in, stm_out;
  char stream_name[256];

  int sock = Pl_Rd_C_Int_Check(socket_word);

  sprintf(stream_name, "socket_stream(assoc(%d))", sock);
  if (!Create_Socket_Streams(sock, stream_name, &stm_in, &stm_out))
    return FALSE;

  Pl_Get_Integer(stm_in, stm_in_word);
  Pl_Get_Integer(stm_out, stm_out_word);
  return TRUE;
}

Bool ref_Create_Socket_Streams(int sock, char *stream_name, int *stm_in, int *stm_out)
{
  int fd;
  FILE *f_in, *f_out;
  int atom;
  int stm;

  Os_Test_Error((fd = dup(sock)));
  Os_Test_Error_Null((f_in = fdopen(sock, "rt")));
  Os_Test_Error_Null((f_out = fdopen(fd, "wt")));

  atom = Pl_Create_Allocate_Atom(stream_name);

  stm = Pl_Add_Stream_For_Stdio_Desc(f_in, atom, STREAM_MODE_READ, TRUE, FALSE);
  pl_stm_tbl[stm]->prop.eof_action = STREAM_EOF_ACTION_RESET;
  pl_stm_tbl[stm]->prop.other = 4;

  *stm_in = stm;

  stm = Pl_Add_Stream_For_Stdio_Desc(f_out, atom, STREAM_MODE_WRITE, TRUE, FALSE);
  pl_stm_tbl[stm]->prop.other = 4;

  *stm_out = stm;

  return TRUE;
}

Bool ref_Pl_Hostname_Address_2(WamWord host_name_word, WamWord host_address_word)
{
  WamWord word, tag_mask;
  char *host_name;
  char *host_address;
  struct hostent *host_entry;
  struct in_addr iadr;

  DEREF(host_name_word, word, tag_mask);
  if (tag_mask == TAG_REF_MASK)
    {
      host_address = Pl_Rd_String_Check(host_address_word);
      host_name = Pl_Host_Name_From_Adr(host_address);
      return host_name && Pl_Un_String_Check(host_name, host_name_word);
    }

  host_name = Pl_Rd_String_Check(word);

  Pl_Check_For_Un_Atom(host_address_word);

  host_entry = gethostbyname(host_name);
  if (host_entry == NULL)
    return FALSE;

  memcpy(&iadr.s_addr, host_entry->h_addr_list[0], host_entry->h_length);
  host_address = inet_ntoa(iadr);

  return Pl_Un_String_Check(host_address, host_address_word);
}
