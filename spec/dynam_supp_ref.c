/* What the functions of dynam_supp.c are to do. */
#include "gp_config.h"
#include <stdlib.h>
#include <stddef.h>
#include <string.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define DEBUG_LEVEL 0

#define first_for_scan first

#define DYN_STAMP_ALIVE ((DynStamp) -1)

#define ALL_MUST_BE_ERASED ((DynCInf *) 2)

#define MAX_SKIP_BEFORE_CLEAN 100
#define MAX_CLAUSES_BEFORE_CLEAN 1000

#define START_DYNAMIC_SWT_SIZE 32

#define NO_INDEX 0
#define VAR_INDEX 1
#define ATM_INDEX 2
#define INT_INDEX 3
#define LST_INDEX 4
#define STC_INDEX 5

typedef struct
{
  ScanFct alt_fct;
  int alt_size_info;
  int owner_func;
  int owner_arity;
  DynPInf *dyn;
  int stop_cl_no;
  DynStamp erase_stamp;
  Bool xxx_is_seq_chain;
  DynCInf *xxx_ind_chain;
  DynCInf *var_ind_chain;
  DynCInf *clause;
}
DynScan;

extern DynPInf *first_dyn_with_erase;

extern int longest_skip_erased;
extern int nb_erased_clauses;

#define INIT_2CHAIN_HDR(hdr) ((hdr).first = (hdr).last = NULL, (hdr).first_for_scan = NULL)

#define Is_Clause_Erased(cl) ((cl)->erase_stamp != DYN_STAMP_ALIVE)

#define Is_LDUV_Deleted(sc,cl) ((cl)->erase_stamp <= (sc)->erase_stamp)

DynPInf *Alloc_Init_Dyn_Info(int func, int arity);

int Index_From_First_Arg(WamWord first_arg_word, PlLong *key);

void Add_To_2Chain(D2ChHdr *hdr, DynCInf *clause, Bool in_seq_chain, Bool asserta);

void Remove_From_2Chain(D2ChHdr *hdr, DynCInf *clause, Bool in_seq_chain);

void Free_Clause(DynCInf *clause);

void Unlink_And_Free_Clause(DynCInf *clause);

void Erase_All(DynPInf *dyn);

void Erase_All_Clauses_Of_File(DynPInf *dyn, int pl_file);

DynCInf *Scan_Dynamic_Pred_Next(DynScan *scan);

DynScan *Get_Scan_Choice_Point(WamWord *b);

void GC_Clause(void);

#define DYNSCAN_SIZE ((sizeof(DynScan) + sizeof(WamWord) - 1) / sizeof(WamWord))

#define SCAN_DYN_TEST_ALT X1_247363616E5F64796E5F746573745F616C74

#define SCAN_DYN_JUMP_ALT X1_247363616E5F64796E5F6A756D705F616C74

Prolog_Prototype(SCAN_DYN_TEST_ALT, 0);
Prolog_Prototype(SCAN_DYN_JUMP_ALT, 0);
DynCInf * Pl_Add_Dynamic_Clause(WamWord head_word, WamWord body_word, Bool asserta, Bool check_perm, int pl_file);
DynPInf * Alloc_Init_Dyn_Info(int func, int arity);
int Index_From_First_Arg(WamWord first_arg_word, PlLong *key);
void Add_To_2Chain(D2ChHdr *hdr, DynCInf *clause, Bool in_seq_chain, Bool asserta);
void Remove_From_2Chain(D2ChHdr *hdr, DynCInf *clause, Bool in_seq_chain);
void Free_Clause(DynCInf *clause);
void Unlink_And_Free_Clause(DynCInf *clause);
void Pl_Delete_Dynamic_Clause(DynCInf *clause);
void Erase_All_Clauses_Of_File(DynPInf *dyn, int pl_file);
void Erase_All(DynPInf *dyn);
PredInf * Pl_Update_Dynamic_Pred(int func, int arity, int what_to_do, int pl_file_for_multi);
DynCInf * Pl_Scan_Dynamic_Pred(int owner_func, int owner_arity, DynPInf *dyn, WamWord first_arg_word, ScanFct alt_fct, int alt_fct_type, int alt_info_size, WamWord *alt_info);
DynCInf * Scan_Dynamic_Pred_Next(DynScan *scan);
PlLong Pl_Scan_Dynamic_Pred_Alt_0(void);
void Pl_Copy_Clause_To_Heap(DynCInf *clause, WamWord *head_word, WamWord *body_word);
DynScan * Get_Scan_Choice_Point(WamWord *b);
int Pl_Scan_Choice_Point_Pred(WamWord *b, int *arity);
void GC_Clause(void);


DynCInf * ref_Pl_Add_Dynamic_Clause(WamWord head_word, WamWord body_word, Bool asserta, Bool check_perm, int pl_file)
{
  WamWord word;
  WamWord *first_arg_adr;
  int func, arity;
  PredInf *pred = NULL;
  int index_no;
  PlLong key = 0;
  DynCInf *clause;
  DynPInf *dyn;
  void **p_ind_htbl = NULL;
  D2ChHdr *p_ind_hdr = NULL;
  DSwtInf swt_info;
  DSwtInf *swt;
  int size;
  WamWord lst_h_b;

  first_arg_adr = Pl_Rd_Callable_Check(head_word, &func, &arity);

  if ((pred = Pl_Lookup_Pred(func, arity)) == NULL)
    {

      if ((arity == 1 || arity == 2) &&
	  strcmp(pl_atom_tbl[func].name, ":-") == 0)
	goto err_static;

      if (arity == 2 && strcmp(pl_atom_tbl[func].name, "-->") == 0)
	goto err_static;

      pred = Pl_Create_Pred(func, arity, pl_atom_user_input,
			    (int) pl_stm_tbl[pl_stm_stdin]->line_count,
			    MASK_PRED_DYNAMIC | MASK_PRED_PUBLIC, NULL);
    }
  else if (check_perm && !(pred->prop & MASK_PRED_DYNAMIC))
    {
    err_static:
      word = Pl_Put_Structure(ATOM_CHAR('/'), 2);
      Pl_Unify_Atom(func);
      Pl_Unify_Integer(arity);
      Pl_Err_Permission(pl_permission_operation_modify,
			pl_permission_type_static_procedure, word);
    }

  if (pl_file == pl_atom_void)
    pl_file = -1;

  if (pred->dyn == NULL)
    pred->dyn = Alloc_Init_Dyn_Info(func, arity);
  dyn = pred->dyn;

  MPROBE_PTR("dyn", dyn);

  index_no = (dyn->arity) ? Index_From_First_Arg(*first_arg_adr, &key) :
    NO_INDEX;

  lst_h_b = Tag_LST(H);
  H[0] = head_word;
  H[1] = body_word;

  size = Pl_Term_Size(lst_h_b);

  clause = (DynCInf *) Malloc(sizeof(DynCInf) + (size - 3) * sizeof(WamWord));

  Add_To_2Chain(&dyn->seq_chain, clause, TRUE, asserta);

  clause->dyn = dyn;
  clause->cl_no = (asserta) ? dyn->count_a-- : dyn->count_z++;
  clause->pl_file = pl_file;
  clause->erase_stamp = DYN_STAMP_ALIVE;
  clause->next_erased_cl = NULL;
  clause->term_size = size;

  Pl_Copy_Term(&clause->term_word, &lst_h_b);

  clause->byte_code = pl_byte_code;
  pl_byte_code = NULL;

  switch(index_no)
    {
    case NO_INDEX:
      clause->ind_chain.next = NULL;
      clause->ind_chain.prev = NULL;
      p_ind_hdr = NULL;
      p_ind_htbl = NULL;
      break;

    case VAR_INDEX:
      p_ind_hdr = &(dyn->var_ind_chain);
      p_ind_htbl = NULL;
      break;

    case LST_INDEX:
      p_ind_hdr = &(dyn->lst_ind_chain);
      p_ind_htbl = NULL;
      break;

    case ATM_INDEX:
      p_ind_htbl = &(dyn->atm_htbl);
      break;

    case INT_INDEX:
      p_ind_htbl = &(dyn->int_htbl);
      break;

    case STC_INDEX:
      p_ind_htbl = &(dyn->stc_htbl);
      break;
    }

  clause->p_ind_htbl = p_ind_htbl;
  if (p_ind_htbl)
    {
      if (*p_ind_htbl == NULL)
	*p_ind_htbl = Pl_HTBL_Alloc_Table(START_DYNAMIC_SWT_SIZE,
					  sizeof(DSwtInf));

      swt_info.key = key;
      INIT_2CHAIN_HDR(swt_info.ind_chain);

      Pl_Extend_HTBL_If_Needed(p_ind_htbl);
      swt = (DSwtInf *) Pl_HTBL_Insert(*p_ind_htbl, &swt_info, FALSE);

      p_ind_hdr = &(swt->ind_chain);
    }

  clause->p_ind_hdr = p_ind_hdr;
  if (p_ind_hdr)
    Add_To_2Chain(p_ind_hdr, clause, FALSE, asserta);

  MPROBE_PTR("clause", clause);
  return clause;
}

DynPInf * ref_Alloc_Init_Dyn_Info(int func, int arity)
{
  DynPInf *dyn;

  dyn = (DynPInf *) Malloc(sizeof(DynPInf));

  INIT_2CHAIN_HDR(dyn->seq_chain);
  INIT_2CHAIN_HDR(dyn->var_ind_chain);
  INIT_2CHAIN_HDR(dyn->lst_ind_chain);
  dyn->atm_htbl = dyn->int_htbl = dyn->stc_htbl = NULL;
  dyn->func = func;
  dyn->arity = arity;
  dyn->count_a = -1;
  dyn->count_z = 0;
  dyn->curr_stamp = 0;
  dyn->first_erased_cl = NULL;
  dyn->next_dyn_with_erase = NULL;

  return dyn;
}

int ref_Index_From_First_Arg(WamWord first_arg_word, PlLong *key)
{
  WamWord word, tag_mask;
  int index_no;

  DEREF(first_arg_word, word, tag_mask);
  switch (Tag_From_Tag_Mask(tag_mask))
    {
    case REF:

    case FDV:

      index_no = VAR_INDEX;
      break;

    case INT:
      index_no = INT_INDEX;
      *key = UnTag_INT(word);
      break;

    case ATM:
      index_no = ATM_INDEX;
      *key = (PlLong) UnTag_ATM(word);
      break;

    case FLT:
      index_no = NO_INDEX;
      break;

    case LST:
      index_no = LST_INDEX;
      break;

    default:
      index_no = STC_INDEX;
      *key = (PlLong) Functor_And_Arity(UnTag_STC(word));
      break;
    }

  return index_no;
}

void ref_Add_To_2Chain(D2ChHdr *hdr, DynCInf *clause, Bool in_seq_chain, Bool asserta)
{
  D2ChCell *cell = (in_seq_chain) ? &clause->seq_chain : &clause->ind_chain;

  MPROBE_PTR("clause", clause);

  if (hdr->first == NULL)
    {
      hdr->first = hdr->last = clause;
      hdr->first_for_scan = clause;
      cell->next = cell->prev = NULL;
      return;
    }

  if (asserta)
    {
      cell->next = hdr->first;
      cell->prev = NULL;
      hdr->first = clause;
      hdr->first_for_scan = clause;
      if (in_seq_chain)
	cell->next->seq_chain.prev = clause;
      else
	cell->next->ind_chain.prev = clause;
    }
  else
    {
      if (in_seq_chain)
	hdr->last->seq_chain.next = clause;
      else
	hdr->last->ind_chain.next = clause;
      cell->next = NULL;
      cell->prev = hdr->last;
      hdr->last = clause;
    }
}

void ref_Remove_From_2Chain(D2ChHdr *hdr, DynCInf *clause, Bool in_seq_chain)
{
  D2ChCell *cell = (in_seq_chain) ? &clause->seq_chain : &clause->ind_chain;
  DynCInf *prev = cell->prev;
  DynCInf *next = cell->next;

  MPROBE_PTR("clause", clause);

  if (prev == NULL)
    {
      hdr->first = next;
      hdr->first_for_scan = next;
    }
  else
    {
      if (in_seq_chain)
	prev->seq_chain.next = next;
      else
	prev->ind_chain.next = next;
    }

  if (next == NULL)
    hdr->last = prev;
  else
    {
      if (in_seq_chain)
	next->seq_chain.prev = prev;
      else
	next->ind_chain.prev = prev;
    }
}

void ref_Free_Clause(DynCInf *clause)
{
  MPROBE_PTR("clause", clause);

  if (clause->byte_code)
    Free(clause->byte_code);

  nb_erased_clauses--;
  Free(clause);
}

void ref_Unlink_And_Free_Clause(DynCInf *clause)
{
  DynPInf *dyn = clause->dyn;
  PlLong *p_key;

  MPROBE_PTR("clause", clause);

  MPROBE_PTR("dyn", dyn);

  Remove_From_2Chain(&dyn->seq_chain, clause, TRUE);
  if (clause->p_ind_hdr)
    Remove_From_2Chain(clause->p_ind_hdr, clause, FALSE);

  if (clause->p_ind_htbl && clause->ind_chain.prev == NULL &&
      clause->ind_chain.next == NULL)
    {
      p_key = (PlLong *) ((char *) clause->p_ind_hdr -
			  offsetof(DSwtInf, ind_chain));

      Pl_HTBL_Delete(*clause->p_ind_htbl, *p_key);
    }

  Free_Clause(clause);
}

void ref_Pl_Delete_Dynamic_Clause(DynCInf *clause)
{
  DynPInf *dyn;

  MPROBE_PTR("clause", clause);

  if (Is_Clause_Erased(clause))
    return;

  dyn = clause->dyn;

  MPROBE_PTR("dyn", dyn);

  if (dyn->first_erased_cl == NULL)
    {
      dyn->next_dyn_with_erase = first_dyn_with_erase;
      first_dyn_with_erase = dyn;
    }

  clause->erase_stamp = dyn->curr_stamp;
  clause->next_erased_cl = dyn->first_erased_cl;
  dyn->first_erased_cl = clause;

  nb_erased_clauses++;

  GC_Clause();

}

void ref_Erase_All_Clauses_Of_File(DynPInf *dyn, int pl_file)
{
  DynCInf *clause;

  if (dyn == NULL)
    return;

  MPROBE_PTR("dyn", dyn);

  for (clause = dyn->seq_chain.first; clause; clause = clause->seq_chain.next)
    {
      MPROBE_PTR("clause", clause);

      if (clause->pl_file == pl_file)
	Pl_Delete_Dynamic_Clause(clause);
    }

  GC_Clause();

}

void ref_Erase_All(DynPInf *dyn)
{
  DynCInf *clause;

  if (dyn == NULL)
    return;

  MPROBE_PTR("dyn", dyn);

  if (dyn->first_erased_cl == NULL)
    {
      dyn->next_dyn_with_erase = first_dyn_with_erase;
      first_dyn_with_erase = dyn;
    }

  dyn->first_erased_cl = ALL_MUST_BE_ERASED;

  for (clause = dyn->seq_chain.first; clause; clause = clause->seq_chain.next)
    {
      MPROBE_PTR("clause", clause);

      if (!Is_Clause_Erased(clause))
	nb_erased_clauses++;
    }

  GC_Clause();

}

PredInf * ref_Pl_Update_Dynamic_Pred(int func, int arity, int what_to_do, int pl_file_for_multi)
{
  WamWord word;
  PredInf *pred;

  pred = Pl_Lookup_Pred(func, arity);
  if (pred == NULL)
    return NULL;

  if ((what_to_do & 1) && !(pred->prop & MASK_PRED_DYNAMIC))
    {
      word = Pl_Put_Structure(ATOM_CHAR('/'), 2);
      Pl_Unify_Atom(func);
      Pl_Unify_Integer(arity);
      Pl_Err_Permission(pl_permission_operation_modify,
			pl_permission_type_static_procedure, word);
    }

  if (pl_file_for_multi >= 0 && (pred->prop & MASK_PRED_MULTIFILE))
    {
      Erase_All_Clauses_Of_File(pred->dyn, pl_file_for_multi);
    }
  else
    {
      Erase_All(pred->dyn);
      pred->dyn = NULL;
    }

  if ((what_to_do & 2))
    {
      Pl_Delete_Pred(func, arity);
      return NULL;
    }

  return pred;
}

DynCInf * ref_Pl_Scan_Dynamic_Pred(int owner_func, int owner_arity, DynPInf *dyn, WamWord first_arg_word, ScanFct alt_fct, int alt_fct_type, int alt_info_size, WamWord *alt_info)
{
  int index_no;
  PlLong key = 0;
  void **p_ind_htbl = NULL;
  DSwtInf *swt;
  DynScan scan;
  DynCInf *clause;
  WamWord *adr;
  int i;
  WamCont scan_alt;

  GC_Clause();
  MPROBE_PTR("dyn", dyn);

  if (owner_func < 0)
    owner_func = Pl_Get_Current_Bip(&owner_arity);

  index_no = (dyn->arity) ? Index_From_First_Arg(first_arg_word, &key) :
    NO_INDEX;

  scan.alt_fct = alt_fct;
  scan.alt_size_info = alt_info_size;
  scan.owner_func = owner_func;
  scan.owner_arity = owner_arity;
  scan.dyn = dyn;
  scan.stop_cl_no = dyn->count_z;
  scan.erase_stamp = dyn->curr_stamp++;
  scan.xxx_is_seq_chain = FALSE;

  switch (index_no)
    {
    case NO_INDEX:
    case VAR_INDEX:
      scan.xxx_is_seq_chain = TRUE;
      scan.xxx_ind_chain = dyn->seq_chain.first_for_scan;
      p_ind_htbl = NULL;
      break;

    case LST_INDEX:
      scan.xxx_is_seq_chain = FALSE;
      scan.xxx_ind_chain = dyn->lst_ind_chain.first_for_scan;
      p_ind_htbl = NULL;
      break;

    case ATM_INDEX:
      p_ind_htbl = &(dyn->atm_htbl);
      break;

    case INT_INDEX:
      p_ind_htbl = &(dyn->int_htbl);
      break;

    case STC_INDEX:
      p_ind_htbl = &(dyn->stc_htbl);
      break;

    }

  if (p_ind_htbl)
    {
      scan.xxx_is_seq_chain = FALSE;
      if (*p_ind_htbl &&
	  (swt = (DSwtInf *) Pl_HTBL_Find(*p_ind_htbl, key)) != NULL)
	scan.xxx_ind_chain = swt->ind_chain.first_for_scan;
      else
	scan.xxx_ind_chain = NULL;
    }

  if (scan.xxx_is_seq_chain)
    scan.var_ind_chain = NULL;
  else
    scan.var_ind_chain = dyn->var_ind_chain.first_for_scan;

  clause = Scan_Dynamic_Pred_Next(&scan);
  if (clause == NULL)
    return NULL;

  if (Scan_Dynamic_Pred_Next(&scan) != NULL)
    {
      if (alt_fct_type == DYN_ALT_FCT_FOR_TEST)
	scan_alt = (WamCont) Prolog_Predicate(SCAN_DYN_TEST_ALT, 0);
      else
	scan_alt = (WamCont) Prolog_Predicate(SCAN_DYN_JUMP_ALT, 0);

      i = DYNSCAN_SIZE + alt_info_size;
      Pl_Create_Choice_Point(scan_alt, i);
      adr = &AB(B, i) + 1;

      i = alt_info_size;
      while (i--)
	*adr++ = *alt_info++;

      *(DynScan *) adr = scan;
    }

  return clause;
}

DynCInf * ref_Scan_Dynamic_Pred_Next(DynScan *scan)
{
  DynCInf *xxx_ind_chain, *var_ind_chain;
  DynCInf *xxx_clause = NULL, *var_clause = NULL;
  PlLong xxx_nb, var_nb;
  DynCInf *clause;

  scan->clause = NULL;

  MPROBE_PTR("dyn", scan->dyn);

  int nb_skip_erased = -1;
  do
    {
      nb_skip_erased++;

      xxx_ind_chain = scan->xxx_ind_chain;
      if (xxx_ind_chain)
	{
	  xxx_clause = xxx_ind_chain;
	  xxx_nb = xxx_clause->cl_no;
	}
      else
	xxx_nb = INT_GREATEST_VALUE;

      var_ind_chain = scan->var_ind_chain;
      if (var_ind_chain)
	{
	  var_clause = var_ind_chain;
	  var_nb = var_clause->cl_no;
	}
      else
	var_nb = INT_GREATEST_VALUE;

      if (xxx_nb <= var_nb)
	{
	  if (xxx_nb == INT_GREATEST_VALUE)
	    return NULL;

	  clause = xxx_clause;
	  if (scan->xxx_is_seq_chain)
	    scan->xxx_ind_chain = xxx_ind_chain->seq_chain.next;
	  else
	    scan->xxx_ind_chain = xxx_ind_chain->ind_chain.next;
	}
      else
	{
	  clause = var_clause;
	  scan->var_ind_chain = var_ind_chain->ind_chain.next;
	}

      MPROBE_PTR("clause", clause);

      if (clause->cl_no >= scan->stop_cl_no)
	{

	  return NULL;
	}

    }
  while(Is_LDUV_Deleted(scan, clause));

  if (nb_skip_erased > longest_skip_erased)
    longest_skip_erased = nb_skip_erased;

  scan->clause = clause;

  return clause;
}

PlLong ref_Pl_Scan_Dynamic_Pred_Alt_0(void)
{
  WamWord *alt_info;
  DynScan *scan;
  DynCInf *clause;
  Bool is_last;
  WamWord *adr;
  int i;
  WamCont scan_alt;

  scan_alt = ALTB(B);
  Pl_Update_Choice_Point(scan_alt, 0);

  i = DYNSCAN_SIZE - 1;
  scan = (DynScan *) &AB(B, i);
  adr = (WamWord *) scan;
  alt_info = (WamWord *) (adr - scan->alt_size_info);

  clause = scan->clause;

  is_last = (Scan_Dynamic_Pred_Next(scan) == NULL);

  if (is_last)
    Delete_Last_Choice_Point();

  return (PlLong) ((*scan->alt_fct)(clause, alt_info, is_last));
}

void ref_Pl_Copy_Clause_To_Heap(DynCInf *clause, WamWord *head_word, WamWord *body_word)
{
  MPROBE_PTR("clause", clause);

  Pl_Copy_Contiguous_Term(H, &clause->term_word);
  *head_word = H[1];
  *body_word = H[2];
  H += clause->term_size;
}

DynScan * ref_Get_Scan_Choice_Point(WamWord *b)
{
  DynScan *scan;
  int i;

  if (ALTB(b) != (WamCont) Prolog_Predicate(SCAN_DYN_TEST_ALT, 0) &&
      ALTB(b) != (WamCont) Prolog_Predicate(SCAN_DYN_JUMP_ALT, 0))
    return NULL;

  i = DYNSCAN_SIZE - 1;
  scan = (DynScan *) &AB(b, i);

  return scan;
}

int ref_Pl_Scan_Choice_Point_Pred(WamWord *b, int *arity)
{
  DynScan *scan;

  scan = Get_Scan_Choice_Point(b);
  if (scan == NULL)
    return -1;

  *arity = scan->owner_arity;

  return scan->owner_func;
}

void ref_GC_Clause(void)
{
  WamWord *base, *b, *e, *e_b, *e_b2, *e_top;
  DynScan *scan;
  DynPInf *dyn, *dyn1, **p_last_dyn;
  DynCInf *clause, *clause1;

  if (nb_erased_clauses < MAX_CLAUSES_BEFORE_CLEAN &&
      longest_skip_erased < MAX_SKIP_BEFORE_CLEAN)
    return;

#define MARK_AS_KEEP(dyn) (dyn)->first_erased_cl = (DynCInf *) ((PlULong) ((dyn)->first_erased_cl) | 1)

#define IS_MARKED_AS_KEEP(dyn) ((PlULong) ((dyn)->first_erased_cl) & 1)

#define UNMARK_AS_KEEP(dyn) (dyn)->first_erased_cl = (DynCInf *) ((PlULong) ((dyn)->first_erased_cl) & (~1))

  base = Local_Stack;
  for (b = B; b > base; b = BB(b))
    {
      scan = Get_Scan_Choice_Point(b);
      if (scan == NULL)
	{

	  continue;
	}

      dyn = scan->dyn;

      if (dyn->first_erased_cl)
	MARK_AS_KEEP(dyn);
    }

  b = B;
  e = E;
  e_b = e_b2 = EB(b);
  for(;;)
    {
      e_top = (e > e_b) ? e : e_b;
      e_top = (e_b2 > e_top) ? e_b2 : e_top;
      if (e_top <= base)
	break;

      clause = Pl_BC_Clause_Environment(e_top);

      if (clause)
	MARK_AS_KEEP(clause->dyn);

      if (e_top == e)
	e = EE(e);

      if (e_top == e_b2)
	e_b2 = EE(e_b2);

      if (e_top == e_b)
	{
	  b = BB(b);
	  if (b > base)
	    e_b = EB(b);
	}
    }

  p_last_dyn = &first_dyn_with_erase;
  for (dyn = first_dyn_with_erase; dyn; dyn = dyn1)
    {
      MPROBE_PTR("dyn", dyn);
      dyn1 = dyn->next_dyn_with_erase;
      if (IS_MARKED_AS_KEEP(dyn))
	{
	  UNMARK_AS_KEEP(dyn);
	  p_last_dyn = &(dyn->next_dyn_with_erase);
	  continue;
	}

      *p_last_dyn = dyn->next_dyn_with_erase;

      if (dyn->first_erased_cl == ALL_MUST_BE_ERASED)
	{

	  for (clause = dyn->seq_chain.first; clause; clause = clause1)
	    {
	      clause1 = clause->seq_chain.next;
	      Free_Clause(clause);
	    }

	  if (dyn->atm_htbl)
	    Pl_HTBL_Free_Table(dyn->atm_htbl);

	  if (dyn->int_htbl)
	    Pl_HTBL_Free_Table(dyn->int_htbl);

	  if (dyn->stc_htbl)
	    Pl_HTBL_Free_Table(dyn->stc_htbl);

	  Free(dyn);
	  continue;
	}

      for (clause = dyn->first_erased_cl; clause; clause = clause1)
	{
	  clause1 = clause->next_erased_cl;
	  Unlink_And_Free_Clause(clause);
	}
      dyn->first_erased_cl = NULL;
      dyn->next_dyn_with_erase = NULL;

      if (dyn->seq_chain.first == NULL)
	{
	  if (dyn->atm_htbl)
	    Pl_HTBL_Free_Table(dyn->atm_htbl);

	  if (dyn->int_htbl)
	    Pl_HTBL_Free_Table(dyn->int_htbl);

	  if (dyn->stc_htbl)
	    Pl_HTBL_Free_Table(dyn->stc_htbl);

	  dyn->atm_htbl = dyn->int_htbl = dyn->stc_htbl = NULL;
	  dyn->count_a = -1;
	  dyn->count_z = 0;
	}

    }

  longest_skip_erased = 0;

}
