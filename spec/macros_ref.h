/* The function-like macros of the headers, stated again. */
#undef PP_STR1
#define PP_STR1(s) #s
#undef PP_STR
#define PP_STR(s) PP_STR1(s)
#undef PP_CAT1
#define PP_CAT1(x,y) x ## y
#undef PP_CAT
#define PP_CAT(x,y) PP_CAT1(x, y)
#undef ATTR_PRINTF
#define ATTR_PRINTF(x) __attribute__((format(printf, x, x + 1)))
#undef AVOID_UNUSED_WARNING
#define AVOID_UNUSED_WARNING(x) ((void)(x))
#undef ATTR_ALIGN
#define ATTR_ALIGN(x) __attribute__((aligned(x)))
#undef Set_Line_Buf
#define Set_Line_Buf(s) setlinebuf(s)
#undef Str_To_PlLong
#define Str_To_PlLong(__str,__end,__base) strtol (__str, __end, __base)
#undef Str_To_PlULong
#define Str_To_PlULong(__str,__end,__base) strtoul(__str, __end, __base)
#undef INITIALIZER
#define INITIALIZER(f) static void f(void) __attribute__((constructor)); static void f(void)
#undef X
#define X(x) (pl_reg_bank[x])
#undef A
#define A(a) (pl_reg_bank[a])
#undef Init_Reg_Bank
#define Init_Reg_Bank(x) save_reg_bank = pl_reg_bank = x
#undef Reg
#define Reg(i) (((i)==0) ? (WamWord) TR : ((i)==1) ? (WamWord) B : ((i)==2) ? (WamWord) H : ((i)==3) ? (WamWord) HB1 : ((i)==4) ? (WamWord) CP : ((i)==5) ? (WamWord) E : ((i)==6) ? (WamWord) CS : ((i)==7) ? (WamWord) S : ((i)==8) ? (WamWord) STAMP : (WamWord) LSSA)
#undef Save_All_Regs
#define Save_All_Regs(buff_save) do { buff_save[0] = (WamWord) TR; buff_save[1] = (WamWord) B; buff_save[2] = (WamWord) H; buff_save[3] = (WamWord) HB1; buff_save[4] = (WamWord) CP; buff_save[5] = (WamWord) E; buff_save[6] = (WamWord) CS; buff_save[7] = (WamWord) S; buff_save[8] = (WamWord) STAMP; buff_save[9] = (WamWord) LSSA; } while (0)
#undef Restore_All_Regs
#define Restore_All_Regs(buff_save) do { TR = (WamWordP) buff_save[0]; B = (WamWordP) buff_save[1]; H = (WamWordP) buff_save[2]; HB1 = (WamWordP) buff_save[3]; CP = (WamCont ) buff_save[4]; E = (WamWordP) buff_save[5]; CS = (WamWordP) buff_save[6]; S = (WamWordP) buff_save[7]; STAMP = (WamWord ) buff_save[8]; LSSA = (WamWordP) buff_save[9]; } while (0)
#undef Save_Machine_Regs
#define Save_Machine_Regs(buff_save) do { buff_save[0] = (WamWord) pl_reg_bank; } while (0)
#undef Restore_Machine_Regs
#define Restore_Machine_Regs(buff_save) do { pl_reg_bank = (WamWordP) buff_save[0]; } while (0)
#undef Tag_Mask_Of
#define Tag_Mask_Of(w) ((PlULong) (w) & (TAG_MASK))
#undef Tag_From_Tag_Mask
#define Tag_From_Tag_Mask(w) (w)
#undef Tag_Of
#define Tag_Of(w) Tag_Mask_Of(w)
#undef Tag_Long_Int
#define Tag_Long_Int(tm,v) ((WamWord) ((((PlULong) (v) << 3) >> 0) | (tm)))
#undef Tag_Short_Uns
#define Tag_Short_Uns(tm,v) ((WamWord) (((PlULong) (v) << 3) + (tm)))
#undef Tag_Address
#define Tag_Address(tm,v) ((WamWord) ((PlULong) (v) + (tm)))
#undef UnTag_Long_Int
#define UnTag_Long_Int(w) (((PlLong) ((PlULong) (w) << 0)) >> 3)
#undef UnTag_Short_Uns
#define UnTag_Short_Uns(w) ((int) UnTag_Long_Int(w))
#undef UnTag_Address
#define UnTag_Address(w) ((WamWord *) ((PlULong) (w) & VALUE_MASK))
#undef Tag_REF
#define Tag_REF(v) Tag_Address(TAG_REF_MASK, v)
#undef Tag_LST
#define Tag_LST(v) Tag_Address(TAG_LST_MASK, v)
#undef Tag_STC
#define Tag_STC(v) Tag_Address(TAG_STC_MASK, v)
#undef Tag_ATM
#define Tag_ATM(v) Tag_Short_Uns(TAG_ATM_MASK, v)
#undef Tag_FLT
#define Tag_FLT(v) Tag_Address(TAG_FLT_MASK, v)
#undef Tag_FDV
#define Tag_FDV(v) Tag_Address(TAG_FDV_MASK, v)
#undef Tag_INT
#define Tag_INT(v) ((WamWord) (((PlULong) (v) << 3) | TAG_MASK))
#undef UnTag_REF
#define UnTag_REF(w) ((WamWord *) (w))
#undef UnTag_LST
#define UnTag_LST(w) UnTag_Address(w)
#undef UnTag_STC
#define UnTag_STC(w) UnTag_Address(w)
#undef UnTag_ATM
#define UnTag_ATM(w) ((int) ((PlULong) (w) >> 3))
#undef UnTag_FLT
#define UnTag_FLT(w) UnTag_Address(w)
#undef UnTag_FDV
#define UnTag_FDV(w) UnTag_Address(w)
#undef UnTag_INT
#define UnTag_INT(w) UnTag_Long_Int(w)
#undef Tag_Is_REF
#define Tag_Is_REF(w) (Tag_Mask_Of(w) == TAG_REF_MASK)
#undef Tag_Is_LST
#define Tag_Is_LST(w) (Tag_Mask_Of(w) == TAG_LST_MASK)
#undef Tag_Is_STC
#define Tag_Is_STC(w) (Tag_Mask_Of(w) == TAG_STC_MASK)
#undef Tag_Is_ATM
#define Tag_Is_ATM(w) (Tag_Mask_Of(w) == TAG_ATM_MASK)
#undef Tag_Is_FLT
#define Tag_Is_FLT(w) (Tag_Mask_Of(w) == TAG_FLT_MASK)
#undef Tag_Is_FDV
#define Tag_Is_FDV(w) (Tag_Mask_Of(w) == TAG_FDV_MASK)
#undef Tag_Is_INT
#define Tag_Is_INT(w) (Tag_Mask_Of(w) == TAG_INT_MASK)
#undef KBytes_To_Wam_Words
#define KBytes_To_Wam_Words(kb) ((1024 * kb + sizeof(WamWord) - 1) / sizeof(WamWord))
#undef Wam_Words_To_KBytes
#define Wam_Words_To_KBytes(ww) (ww * sizeof(WamWord) / 1024)
#undef Trail_Offset
#define Trail_Offset(adr) ((WamWord *)(adr) - Trail_Stack)
#undef Cstr_Offset
#define Cstr_Offset(adr) ((WamWord *)(adr) - Cstr_Stack)
#undef Global_Offset
#define Global_Offset(adr) ((WamWord *)(adr) - Global_Stack)
#undef Local_Offset
#define Local_Offset(adr) ((WamWord *)(adr) - Local_Stack)
#undef Stack_Top
#define Stack_Top(s) (((s) == 0) ? TR : ((s) == 1) ? CS : ((s) == 2) ? H : Local_Top)
#undef cpp_recurs
#define cpp_recurs(p,n) p##__a##n
#undef Prolog_Predicate
#define Prolog_Predicate(p,n) cpp_recurs(p, n)
#undef Prolog_Prototype
#define Prolog_Prototype(p,n) void Prolog_Predicate(p, n)()
#undef Goto_Predicate
#define Goto_Predicate(p,n) ((*Prolog_Predicate(p, n))())
#undef Is_Valid_Code
#define Is_Valid_Code(c) ((PlULong) (c)-1 < 256-1)
#undef Is_Valid_Byte
#define Is_Valid_Byte(c) ((PlULong) (c) < 256)
#undef Is_Valid_Atom
#define Is_Valid_Atom(a) ((PlULong) (a) < pl_max_atom && pl_atom_tbl[(a)].name!=NULL)
#undef ATOM_CHAR
#define ATOM_CHAR(c) ((int) (unsigned char) (c))
#undef Free
#define Free(ptr) free(ptr)
#undef MPROBE_PTR
#define MPROBE_PTR(ptr_desc,ptr) 
#undef Pl_Least_Significant_Bit
#define Pl_Least_Significant_Bit(x) (__builtin_ctzl(x))
#undef Pl_Most_Significant_Bit
#define Pl_Most_Significant_Bit(x) (WORD_SIZE - 1 - __builtin_clzl(x))
#undef Pl_Count_Set_Bits
#define Pl_Count_Set_Bits(x) (__builtin_popcountl(x))
#undef Make_Oper_Key
#define Make_Oper_Key(a,t) (((PlULong) (a) << 2) | (t))
#undef Atom_Of_Oper
#define Atom_Of_Oper(k) ((int) ((PlULong) (k) >> 2))
#undef Type_Of_Oper
#define Type_Of_Oper(k) ((int) ((PlULong) (k) & 3))
#undef Make_Op_Mask
#define Make_Op_Mask(type) (1 << (type))
#undef Check_Oper
#define Check_Oper(atom_op,type) (pl_atom_tbl[(atom_op)].prop.op_mask & Make_Op_Mask(type))
#undef Check_Oper_Any_Type
#define Check_Oper_Any_Type(atom_op) (pl_atom_tbl[(atom_op)].prop.op_mask)
#undef Is_Dir_Sep
#define Is_Dir_Sep(c) ((c) == DIR_SEP_C || (c) == DIR_SEP_C_ALT)
#undef Find_Last_Dir_Sep
#define Find_Last_Dir_Sep(_p,_path) do { char *_ptr; for((_p) = NULL, _ptr = (_path); *_ptr; _ptr++) if (Is_Dir_Sep(*_ptr)) (_p) = _ptr; } while (0)
#undef Pl_Absolute_Path_Name
#define Pl_Absolute_Path_Name(p) Pl_Absolute_Path_Name0(p, TRUE)
#undef Pl_Access
#define Pl_Access(p,m) access(p, m)
#undef CPE
#define CPE(e) (*(WamCont *) &(e[-1]))
#undef EE
#define EE(e) (*(WamWord **) &(e[-2]))
#undef Y
#define Y(e,y) (*(WamWord *) &(e[-3 - (y)]))
#undef ALTB
#define ALTB(b) (*(CodePtr *) &(b[-1]))
#undef CPB
#define CPB(b) (*(WamCont *) &(b[-2]))
#undef EB
#define EB(b) (*(WamWord **) &(b[-3]))
#undef BB
#define BB(b) (*(WamWord **) &(b[-4]))
#undef HB
#define HB(b) (*(WamWord **) &(b[-5]))
#undef TRB
#define TRB(b) (*(WamWord **) &(b[-6]))
#undef CSB
#define CSB(b) (*(WamWord **) &(b[-7]))
#undef AB
#define AB(b,a) (*(WamWord *) &(b[-8 - (a)]))
#undef Trail_Tag_Value
#define Trail_Tag_Value(t,v) ((PlULong) (v) | (t))
#undef Trail_Tag_Of
#define Trail_Tag_Of(w) ((PlULong) (w) & 0x3)
#undef Trail_Value_Of
#define Trail_Value_Of(w) ((PlULong) (w) & (~0x3))
#undef Functor_Arity
#define Functor_Arity(f,n) ((((PlULong)(n) << ATOM_MAX_BITS) | (f)))
#undef Functor_Of
#define Functor_Of(word) ((int) ((PlULong)(word) & (((PlULong) 1 << ATOM_MAX_BITS) - 1)))
#undef Arity_Of
#define Arity_Of(word) ((int) ((PlULong)(word) >> ATOM_MAX_BITS))
#undef Dont_Separate_Tag
#define Dont_Separate_Tag(tag_mask) ((tag_mask) == TAG_FDV_MASK)
#undef Do_Copy_Of_Word
#define Do_Copy_Of_Word(tag_mask,word) if (Dont_Separate_Tag(tag_mask)) word = Tag_REF(UnTag_Address(word))
#undef Make_Self_Ref
#define Make_Self_Ref(adr) (Tag_REF(adr))
#undef TEST_INT_OVERFLOW
#define TEST_INT_OVERFLOW(x) (((x) < INT_LOWEST_VALUE) || ((x) > INT_GREATEST_VALUE))
#undef Car
#define Car(adr) (((WamWord *) adr)[OFFSET_CAR])
#undef Cdr
#define Cdr(adr) (((WamWord *) adr)[OFFSET_CAR+1])
#undef Functor
#define Functor(adr) (Functor_Of(Functor_And_Arity(adr)))
#undef Arity
#define Arity(adr) (Arity_Of(Functor_And_Arity(adr)))
#undef Functor_And_Arity
#define Functor_And_Arity(adr) (((PlULong *) (adr))[0])
#undef Arg
#define Arg(adr,i) (((WamWord *) (adr))[OFFSET_ARG+i])
#undef Global_Push
#define Global_Push(word) (*H++ = (WamWord) (word))
#undef Trail_Push
#define Trail_Push(word) (*TR++ = (WamWord) (word))
#undef Is_A_Local_Adr
#define Is_A_Local_Adr(adr) ((adr) >= LSSA)
#undef From_B_To_WamWord
#define From_B_To_WamWord(b) (Tag_INT((b) - LSSA))
#undef From_WamWord_To_B
#define From_WamWord_To_B(word) (LSSA + UnTag_INT(word))
#undef Adjust_CP
#define Adjust_CP(p) ((WamCont) (p))
#undef UnAdjust_CP
#define UnAdjust_CP(cp) (cp)
#undef DEREF_COUNT
#define DEREF_COUNT(x) 
#undef DEREF
#define DEREF(start_word,word,tag_mask) do { WamWord deref_last_word; word = start_word; DEREF_COUNT(nb_deref); do { DEREF_COUNT(chain_len); deref_last_word = word; tag_mask = Tag_Mask_Of(word); if (tag_mask != TAG_REF_MASK) break; word = *(UnTag_REF(word)); } while (word != deref_last_word); } while (0)
#undef Word_Needs_Trailing
#define Word_Needs_Trailing(adr) ((adr) < HB1 || (Is_A_Local_Adr(adr) && (adr) < B))
#undef Bind_UV
#define Bind_UV(adr,word) do { if (Word_Needs_Trailing(adr)) Trail_UV(adr); *(adr) = (word); } while (0)
#undef Bind_OV
#define Bind_OV(adr,word) do { if (Word_Needs_Trailing(adr)) Trail_OV(adr); *(adr) = (word); } while (0)
#undef Bind_MV
#define Bind_MV(adr,nb,real_adr) do { if (Word_Needs_Trailing(adr)) Trail_MV(adr, nb); Mem_Word_Cpy(adr, real_adr, nb); } while (0)
#undef Trail_UV
#define Trail_UV(adr) Trail_Push(Trail_Tag_Value(TUV, adr))
#undef Trail_OV
#define Trail_OV(adr) do { Trail_Push(*(adr)); Trail_Push(Trail_Tag_Value(TOV, adr)); } while (0)
#undef Trail_MV
#define Trail_MV(adr,nb) do { Mem_Word_Cpy(TR, adr, nb); TR += nb; Trail_Push(nb); Trail_Push(Trail_Tag_Value(TMV, adr)); } while (0)
#undef Trail_FC
#define Trail_FC(fct,nb,arg) do { Mem_Word_Cpy(TR, arg, nb); TR += nb; Trail_Push(nb); Trail_Push(fct); Trail_Push(Trail_Tag_Value(TFC, 0)); } while (0)
#undef Assign_B
#define Assign_B(newB) (B = (newB), HB1 = HB(B))
#undef Delete_Last_Choice_Point
#define Delete_Last_Choice_Point() Assign_B(BB(B))
#undef Globalize_Local_Unbound_Var
#define Globalize_Local_Unbound_Var(adr,res_word) do { WamWord *cur_H = H; res_word = Make_Self_Ref(cur_H); *cur_H = res_word; H++; Bind_UV(adr, res_word); } while (0)
#undef Mem_Word_Cpy
#define Mem_Word_Cpy(dst,src,nb) do { register PlLong *s = (PlLong *) (src); register PlLong *d = (PlLong *) (dst); register int counter = (nb); do *d++ = *s++; while (--counter); } while (0)
#undef Fd_Unify_With_Integer
#define Fd_Unify_With_Integer(f,n) ((*pl_fd_unify_with_integer)(f, n))
#undef Fd_Unify_With_Fd_Var
#define Fd_Unify_With_Fd_Var(f1,f2) ((*pl_fd_unify_with_fd_var)(f1, f2))
#undef Fd_Variable_Size
#define Fd_Variable_Size(f) ((*pl_fd_variable_size)(f))
#undef Fd_Copy_Variable
#define Fd_Copy_Variable(dst_adr,f) ((*pl_fd_copy_variable)(dst_adr, f))
#undef Fd_Variable_To_String
#define Fd_Variable_To_String(f) ((*pl_fd_variable_to_string)(f))
#undef Pl_Exec_Continuation_Native
#define Pl_Exec_Continuation_Native(codep) Pl_Execute_A_Continuation(codep)
#undef Pl_Get_Choice_Counter
#define Pl_Get_Choice_Counter() pl_foreign_bkt_counter
#undef Pl_Get_Choice_Buffer
#define Pl_Get_Choice_Buffer(t) ((t) pl_foreign_bkt_buffer)
#undef Stream_Pointer
#define Stream_Pointer(s) (pl_stm_tbl + (s))
#undef CALL_GETC
#define CALL_GETC(pstm) (* (int (*)(void *)) pstm->fct_getc) (pstm->file)
#undef CALL_PUTC
#define CALL_PUTC(c,pstm) (* (int (*)(int, void *)) pstm->fct_putc) (c, pstm->file)
#undef CALL_FLUSH
#define CALL_FLUSH(pstm) (* (void (*)(void *)) pstm->fct_flush) (pstm->file)
#undef CALL_CLOSE
#define CALL_CLOSE(pstm) (* (int (*)(void *)) pstm->fct_close) (pstm->file)
#undef CALL_TELL
#define CALL_TELL(pstm) (* (long (*)(void *)) pstm->fct_tell) (pstm->file)
#undef CALL_SEEK
#define CALL_SEEK(pstm,off,wh) (* (int (*)(void *, long, int)) pstm->fct_seek) (pstm->file, off, wh)
#undef CALL_CLEARERR
#define CALL_CLEARERR(pstm) (* (void (*)(void *)) pstm->fct_clearerr) (pstm->file)
#undef Pl_Get_Buffer_Str_Stream
#define Pl_Get_Buffer_Str_Stream(stm) (((StrSInf *) (pl_stm_tbl[stm]->file))->buff)
#undef Pl_Get_Ptr_Str_Stream
#define Pl_Get_Ptr_Str_Stream(stm) (((StrSInf *) (pl_stm_tbl[stm]->file))->ptr)
#undef PB_Init
#define PB_Init(pb) pb.ptr = pb.buff, pb.nb_elems = 0;
#undef PB_Is_Empty
#define PB_Is_Empty(pb) (pb.nb_elems == 0)
#undef PB_Push
#define PB_Push(pb,elem) do { *(pb.ptr) = (elem); if (pb.ptr != pb.buff + STREAM_PB_SIZE - 1) pb.ptr++; else pb.ptr = pb.buff; if (pb.nb_elems < STREAM_PB_SIZE) pb.nb_elems++; } while (0)
#undef PB_Pop
#define PB_Pop(pb,elem) do { if (pb.ptr != pb.buff) pb.ptr--; else pb.ptr = pb.buff + STREAM_PB_SIZE - 1; (elem) = *pb.ptr; pb.nb_elems--; } while (0)
#undef PB_Top
#define PB_Top(pb,elem) do { if (pb.ptr != pb.buff) (elem) = pb.ptr[-1]; else (elem) = pb.buff[STREAM_PB_SIZE - 1]; } while (0)
#undef Os_Test_Error_Null
#define Os_Test_Error_Null(tst) do { if ((tst) == NULL) { Pl_Os_Error(errno); return FALSE; } } while (0)
#undef Os_Test_Error
#define Os_Test_Error(tst) do { int _tst = (tst); if (_tst < 0) { Pl_Os_Error(errno); return FALSE; } } while (0)
#undef NEW_FLAG0
#define NEW_FLAG0(flag,modif,type,val,get,chk,...) Pl_New_Prolog_Flag(#flag, modif, type, val, get, chk, __VA_ARGS__)
#undef NEW_FLAG_R
#define NEW_FLAG_R(flag,type,val,get,chk,...) NEW_FLAG0(flag, FALSE, type, val, get, chk, __VA_ARGS__)
#undef NEW_FLAG_W
#define NEW_FLAG_W(flag,type,val,get,chk,...) pl_flag_##flag = NEW_FLAG0(flag, TRUE, type, val, get, chk, __VA_ARGS__)
#undef NEW_FLAG_R_INTEGER
#define NEW_FLAG_R_INTEGER(f,v) NEW_FLAG_R(f, PF_TYPE_INTEGER, v, NULL, NULL, NULL)
#undef NEW_FLAG_R_ATOM
#define NEW_FLAG_R_ATOM(f,v) NEW_FLAG_R(f, PF_TYPE_ATOM, Pl_Create_Atom(v), NULL, NULL, NULL)
#undef NEW_FLAG_R_ATOM_TBL
#define NEW_FLAG_R_ATOM_TBL(f,v,...) NEW_FLAG_R(f, PF_TYPE_ATOM_TBL, v, NULL, NULL, NULL, __VA_ARGS__, -1);
#undef NEW_FLAG_W_ATOM_TBL
#define NEW_FLAG_W_ATOM_TBL(f,v,...) NEW_FLAG_W(f, PF_TYPE_ATOM_TBL, v, NULL, NULL, NULL, __VA_ARGS__, -1);
#undef NEW_FLAG_R_BOOL
#define NEW_FLAG_R_BOOL(f,v) NEW_FLAG_R_ATOM_TBL(f, v, pl_atom_false, pl_atom_true)
#undef NEW_FLAG_W_ON_OFF
#define NEW_FLAG_W_ON_OFF(f,v) NEW_FLAG_W_ATOM_TBL(f, v, atom_off, atom_on)
#undef Flag_Value
#define Flag_Value(f) ((pl_flag_##f)->value)
#undef Char_Conversion
#define Char_Conversion(c) ((Flag_Value(char_conversion) && Is_Valid_Code(c)) ? pl_char_conv[c] : (c))
#undef Call_Info
#define Call_Info(f,a,dc) ((Functor_Arity(f, a) << 1) | dc)
#undef Word_No_And_Bit_No
#define Word_No_And_Bit_No(w,b) (int) (((VecWord) (w) << WORD_SIZE_BITS)| (VecWord) (b))
#undef Word_No
#define Word_No(n) ((VecWord) (n) >> WORD_SIZE_BITS)
#undef Bit_No
#define Bit_No(n) ((VecWord) (n) & (((VecWord) 1 << WORD_SIZE_BITS)-1))
#undef Vector_Test_Value
#define Vector_Test_Value(vec,n) ((vec[Word_No(n)] & ((VecWord) 1 << Bit_No(n))) != 0)
#undef Vector_Set_Value
#define Vector_Set_Value(vec,n) (vec[Word_No(n)] |= ((VecWord) 1 << Bit_No(n)))
#undef Vector_Reset_Value
#define Vector_Reset_Value(vec,n) (vec[Word_No(n)] &= ~((VecWord) 1 << Bit_No(n)))
#undef Vector_Allocate_If_Necessary
#define Vector_Allocate_If_Necessary(vec) do { if (vec == NULL) Vector_Allocate(vec); } while (0)
#undef Vector_Allocate
#define Vector_Allocate(vec) do { vec = (Vector) RANGE_TOP_STACK; RANGE_TOP_STACK += pl_vec_size; } while (0)
#undef VECTOR_BEGIN_ENUM
#define VECTOR_BEGIN_ENUM(vec,vec_elem) { Vector enum_end = vec + pl_vec_size, enum_i = vec; int enum_j; VecWord enum_word; vec_elem = 0; do { enum_word = *enum_i; for (enum_j = 0; enum_j++ < WORD_SIZE; enum_word >>= 1, vec_elem++) { if (enum_word & 1) {
#undef Is_Interval
#define Is_Interval(range) ((range)->vec == NULL)
#undef Is_Sparse
#define Is_Sparse(range) ((range)->vec != NULL)
#undef Is_Empty
#define Is_Empty(range) ((range)->min > (range)->max)
#undef Is_Not_Empty
#define Is_Not_Empty(range) ((range)->max >= (range)->min)
#undef Set_To_Empty
#define Set_To_Empty(range) (range)->max = (int)(1U << (sizeof(int) * 8 - 1))
#undef Range_Init_Interval
#define Range_Init_Interval(range,r_min,r_max) do { (range)->extra_cstr = FALSE; (range)->min = (r_min); (range)->max = (r_max); (range)->vec = NULL; } while (0)
#undef FD_Tag_Value
#define FD_Tag_Value(fdv_adr) (((WamWord *) fdv_adr)[0])
#undef FD_INT_Date
#define FD_INT_Date(fdv_adr) (((WamWord *) fdv_adr)[1])
#undef Queue_Propag_Mask
#define Queue_Propag_Mask(fdv_adr) (((WamWord *) fdv_adr)[2])
#undef Queue_Next_Fdv_Adr
#define Queue_Next_Fdv_Adr(fdv_adr) (((WamWord **) fdv_adr)[3])
#undef Range_Stamp
#define Range_Stamp(fdv_adr) (((WamWord *) fdv_adr)[OFFSET_RANGE])
#undef Nb_Elem
#define Nb_Elem(fdv_adr) (((PlLong *) fdv_adr)[OFFSET_RANGE + 1])
#undef Range
#define Range(fdv_adr) ((Range *) ((WamWord *) fdv_adr+OFFSET_RANGE + 2))
#undef Chains_Stamp
#define Chains_Stamp(fdv_adr) (((WamWord *) fdv_adr)[OFFSET_CHAINS])
#undef Nb_Cstr
#define Nb_Cstr(fdv_adr) (((PlLong *) fdv_adr)[OFFSET_CHAINS + 1])
#undef Chains_Mask
#define Chains_Mask(fdv_adr) (((WamWord *) fdv_adr)[OFFSET_CHAINS + 2])
#undef Chain_Min
#define Chain_Min(fdv_adr) (((WamWord **) fdv_adr)[OFFSET_CHAINS + 3])
#undef Chain_Max
#define Chain_Max(fdv_adr) (((WamWord **) fdv_adr)[OFFSET_CHAINS + 4])
#undef Chain_Min_Max
#define Chain_Min_Max(fdv_adr) (((WamWord **) fdv_adr)[OFFSET_CHAINS + 5])
#undef Chain_Dom
#define Chain_Dom(fdv_adr) (((WamWord **) fdv_adr)[OFFSET_CHAINS + 6])
#undef Chain_Val
#define Chain_Val(fdv_adr) (((WamWord **) fdv_adr)[OFFSET_CHAINS + 7])
#undef Is_Var_In_Queue
#define Is_Var_In_Queue(fdv_adr) (Queue_Propag_Mask(fdv_adr) != 0)
#undef Del_Var_From_Queue
#define Del_Var_From_Queue(fdv_adr) (Queue_Propag_Mask(fdv_adr) = 0)
#undef Extra_Cstr
#define Extra_Cstr(fdv_adr) (Range(fdv_adr)->extra_cstr)
#undef Min
#define Min(fdv_adr) (Range(fdv_adr)->min)
#undef Max
#define Max(fdv_adr) (Range(fdv_adr)->max)
#undef Vec
#define Vec(fdv_adr) (Range(fdv_adr)->vec)
#undef Has_Min_Mask
#define Has_Min_Mask(mask) ((mask) & MASK_MIN)
#undef Has_Max_Mask
#define Has_Max_Mask(mask) ((mask) & MASK_MAX)
#undef Has_Min_Max_Mask
#define Has_Min_Max_Mask(mask) ((mask) & MASK_MIN_MAX)
#undef Has_Dom_Mask
#define Has_Dom_Mask(mask) ((mask) & MASK_DOM)
#undef Has_Val_Mask
#define Has_Val_Mask(mask) ((mask) & MASK_VAL)
#undef Set_Min_Mask
#define Set_Min_Mask(mask) ((mask) |= MASK_MIN)
#undef Set_Max_Mask
#define Set_Max_Mask(mask) ((mask) |= MASK_MAX)
#undef Set_Min_Max_Mask
#define Set_Min_Max_Mask(mask) ((mask) |= MASK_MIN_MAX)
#undef Set_Dom_Mask
#define Set_Dom_Mask(mask) ((mask) |= MASK_DOM)
#undef Set_Val_Mask
#define Set_Val_Mask(mask) ((mask) |= MASK_VAL)
#undef CF_Pointer
#define CF_Pointer(rec_adr) (*(WamWord **) &(rec_adr[0]))
#undef Next_Chain
#define Next_Chain(rec_adr) (*(WamWord **) &(rec_adr[1]))
#undef AF_Pointer
#define AF_Pointer(cf) (*(WamWord **) &(cf[0]))
#undef Optim_Pointer
#define Optim_Pointer(cf) (*(PlULong **) &(cf[1]))
#undef Cstr_Address
#define Cstr_Address(cf) (*(CstrFct *) &(cf[2]))
#undef Fd_Variable_Is_Ground
#define Fd_Variable_Is_Ground(fdv_adr) (Tag_Of(FD_Tag_Value(fdv_adr)) == INT)
#undef math_min
#define math_min(x,y) ((x) <= (y) ? (x) : (y))
#undef math_max
#define math_max(x,y) ((x) >= (y) ? (x) : (y))
#undef Pl_Fd_Assign_Value
#define Pl_Fd_Assign_Value(fdv,n) Pl_Fd_Unify_With_Integer0(fdv, n)
#undef Pl_Fd_New_Bool_Variable
#define Pl_Fd_New_Bool_Variable() Pl_Fd_New_Variable_Interval(0, 1)
#undef Fd_Deref_Check_Fd_Var
#define Fd_Deref_Check_Fd_Var(fdv_word,word,tag_mask) DEREF(fdv_word, word, tag_mask); if (tag_mask == TAG_REF_MASK) Pl_Err_Instantiation(); if (tag_mask != TAG_INT_MASK && tag_mask != TAG_FDV_MASK) Pl_Err_Type(pl_type_fd_variable, word)
