From b8997334355b01c7df071acbb1e638e6051b8b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 01/23] fix: error context of delete_directory/1,
 delete_file/1, unlink/1, fd_dom/2 and length/2 names the called predicate

---
 src/BipsFD/fd_infos.pl   |  2 +-
 src/BipsPl/list.pl       |  1 +
 src/BipsPl/list.wam      | 95 ++++++++++++++++++++--------------------
 src/BipsPl/os_interf.pl  |  6 +--
 src/BipsPl/os_interf.wam |  8 ++--
 5 files changed, 57 insertions(+), 55 deletions(-)

diff --git a/src/BipsFD/fd_infos.pl b/src/BipsFD/fd_infos.pl
index e92ca24..5ef2cf9 100644
--- a/src/BipsFD/fd_infos.pl
+++ b/src/BipsFD/fd_infos.pl
@@ -75,7 +75,7 @@ fd_max(Fdv, Max) :-
 
 
 fd_dom(Fdv, List) :-
-	set_bip_name(fd_domain, 2),
+	set_bip_name(fd_dom, 2),
 	'$call_c_test'('Pl_Fd_Dom_2'(Fdv, List)).
 
 
diff --git a/src/BipsPl/list.pl b/src/BipsPl/list.pl
index aa3c8ae..a6cfcda 100644
--- a/src/BipsPl/list.pl
+++ b/src/BipsPl/list.pl
@@ -221,6 +221,7 @@ length(L, N) :-
 
 
 length(L, N) :-
+	set_bip_name(length, 2),
 	'$call_c_test'('Pl_Length_2'(L, N)).
 
 
diff --git a/src/BipsPl/list.wam b/src/BipsPl/list.wam
index f68053d..6a2fc95 100644
--- a/src/BipsPl/list.wam
+++ b/src/BipsPl/list.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: list.pl
-% hash: 8d3e07c4f734fac43366076ecf4781e6ebc7b7f9  list.pl
+% hash: 51d1e9ee39a870c0be9fbc55b9a07b86f2af506d  list.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/list.pl').
@@ -292,20 +292,21 @@ label(4),
 
 
 predicate(length/2,223,static,private,monofile,built_in,[
+    call_c('Pl_Set_Bip_Name_Untagged_2',[],[length,2]),
     call_c('Pl_Length_2',[boolean],[x(0),x(1)]),
     proceed]).
 
 
-predicate('$length_alt'/0,227,static,private,monofile,built_in,[
+predicate('$length_alt'/0,228,static,private,monofile,built_in,[
     call_c('Pl_Length_Alt_0',[boolean],[]),
     proceed]).
 
 
-predicate(nth/3,261,static,private,monofile,built_in,[
+predicate(nth/3,262,static,private,monofile,built_in,[
     execute(nth1/3)]).
 
 
-predicate(nth1/3,264,static,private,monofile,built_in,[
+predicate(nth1/3,265,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -324,7 +325,7 @@ label(1),
     execute('$nth_gener'/4)]).
 
 
-predicate(nth0/3,273,static,private,monofile,built_in,[
+predicate(nth0/3,274,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -343,7 +344,7 @@ label(1),
     execute('$nth_gener'/4)]).
 
 
-predicate('$nth_gener'/4,283,static,private,monofile,built_in,[
+predicate('$nth_gener'/4,284,static,private,monofile,built_in,[
     switch_on_term(2,fail,fail,1,fail),
 
 label(1),
@@ -373,7 +374,7 @@ label(5),
     execute('$nth_gener'/4)]).
 
 
-predicate(max_list/2,293,static,private,monofile,built_in,[
+predicate(max_list/2,294,static,private,monofile,built_in,[
     get_variable(x(2),1),
     get_list(0),
     unify_variable(x(1)),
@@ -381,7 +382,7 @@ predicate(max_list/2,293,static,private,monofile,built_in,[
     execute('$max_list1'/3)]).
 
 
-predicate('$max_list1'/3,296,static,private,monofile,built_in,[
+predicate('$max_list1'/3,297,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(2,3,fail,1,fail),
@@ -422,7 +423,7 @@ label(7),
     execute('$max_list1'/3)]).
 
 
-predicate(min_list/2,308,static,private,monofile,built_in,[
+predicate(min_list/2,309,static,private,monofile,built_in,[
     get_variable(x(2),1),
     get_list(0),
     unify_variable(x(1)),
@@ -430,7 +431,7 @@ predicate(min_list/2,308,static,private,monofile,built_in,[
     execute('$min_list1'/3)]).
 
 
-predicate('$min_list1'/3,311,static,private,monofile,built_in,[
+predicate('$min_list1'/3,312,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(2,3,fail,1,fail),
@@ -471,13 +472,13 @@ label(7),
     execute('$min_list1'/3)]).
 
 
-predicate(sum_list/2,324,static,private,monofile,built_in,[
+predicate(sum_list/2,325,static,private,monofile,built_in,[
     put_value(x(1),2),
     put_integer(0,1),
     execute('$sum_list1'/3)]).
 
 
-predicate('$sum_list1'/3,327,static,private,monofile,built_in,[
+predicate('$sum_list1'/3,328,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -502,7 +503,7 @@ label(4),
     execute('$sum_list1'/3)]).
 
 
-predicate(flatten/2,335,static,private,monofile,built_in,[
+predicate(flatten/2,336,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(3),
@@ -518,7 +519,7 @@ predicate(flatten/2,335,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate('$flatten'/3,339,static,private,monofile,built_in,[
+predicate('$flatten'/3,340,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -568,14 +569,14 @@ label(6),
     proceed]).
 
 
-predicate(maplist/2,356,static,private,monofile,built_in,[
+predicate(maplist/2,357,static,private,monofile,built_in,[
     get_variable(x(2),1),
     get_variable(x(1),0),
     put_value(x(2),0),
     execute('$maplist'/2)]).
 
 
-predicate('$maplist'/2,359,static,private,monofile,built_in,[
+predicate('$maplist'/2,360,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -602,7 +603,7 @@ label(4),
     execute('$maplist'/2)]).
 
 
-predicate(maplist/3,370,static,private,monofile,built_in,[
+predicate(maplist/3,371,static,private,monofile,built_in,[
     get_variable(x(3),2),
     get_variable(x(2),0),
     put_value(x(1),0),
@@ -610,7 +611,7 @@ predicate(maplist/3,370,static,private,monofile,built_in,[
     execute('$maplist'/3)]).
 
 
-predicate('$maplist'/3,373,static,private,monofile,built_in,[
+predicate('$maplist'/3,374,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -643,7 +644,7 @@ label(4),
     execute('$maplist'/3)]).
 
 
-predicate(maplist/4,384,static,private,monofile,built_in,[
+predicate(maplist/4,385,static,private,monofile,built_in,[
     get_variable(x(4),3),
     get_variable(x(3),0),
     put_value(x(1),0),
@@ -652,7 +653,7 @@ predicate(maplist/4,384,static,private,monofile,built_in,[
     execute('$maplist'/4)]).
 
 
-predicate('$maplist'/4,387,static,private,monofile,built_in,[
+predicate('$maplist'/4,388,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -691,7 +692,7 @@ label(4),
     execute('$maplist'/4)]).
 
 
-predicate(maplist/5,398,static,private,monofile,built_in,[
+predicate(maplist/5,399,static,private,monofile,built_in,[
     get_variable(x(5),4),
     get_variable(x(4),0),
     put_value(x(1),0),
@@ -701,7 +702,7 @@ predicate(maplist/5,398,static,private,monofile,built_in,[
     execute('$maplist'/5)]).
 
 
-predicate('$maplist'/5,401,static,private,monofile,built_in,[
+predicate('$maplist'/5,402,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -746,7 +747,7 @@ label(4),
     execute('$maplist'/5)]).
 
 
-predicate(maplist/6,412,static,private,monofile,built_in,[
+predicate(maplist/6,413,static,private,monofile,built_in,[
     get_variable(x(6),5),
     get_variable(x(5),0),
     put_value(x(1),0),
@@ -757,7 +758,7 @@ predicate(maplist/6,412,static,private,monofile,built_in,[
     execute('$maplist'/6)]).
 
 
-predicate('$maplist'/6,415,static,private,monofile,built_in,[
+predicate('$maplist'/6,416,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -808,7 +809,7 @@ label(4),
     execute('$maplist'/6)]).
 
 
-predicate(maplist/7,426,static,private,monofile,built_in,[
+predicate(maplist/7,427,static,private,monofile,built_in,[
     get_variable(x(7),6),
     get_variable(x(6),0),
     put_value(x(1),0),
@@ -820,7 +821,7 @@ predicate(maplist/7,426,static,private,monofile,built_in,[
     execute('$maplist'/7)]).
 
 
-predicate('$maplist'/7,429,static,private,monofile,built_in,[
+predicate('$maplist'/7,430,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -877,7 +878,7 @@ label(4),
     execute('$maplist'/7)]).
 
 
-predicate(maplist/8,440,static,private,monofile,built_in,[
+predicate(maplist/8,441,static,private,monofile,built_in,[
     get_variable(x(8),7),
     get_variable(x(7),0),
     put_value(x(1),0),
@@ -890,7 +891,7 @@ predicate(maplist/8,440,static,private,monofile,built_in,[
     execute('$maplist'/8)]).
 
 
-predicate('$maplist'/8,443,static,private,monofile,built_in,[
+predicate('$maplist'/8,444,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -953,7 +954,7 @@ label(4),
     execute('$maplist'/8)]).
 
 
-predicate(maplist/9,454,static,private,monofile,built_in,[
+predicate(maplist/9,455,static,private,monofile,built_in,[
     get_variable(x(9),8),
     get_variable(x(8),0),
     put_value(x(1),0),
@@ -967,7 +968,7 @@ predicate(maplist/9,454,static,private,monofile,built_in,[
     execute('$maplist'/9)]).
 
 
-predicate('$maplist'/9,457,static,private,monofile,built_in,[
+predicate('$maplist'/9,458,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1036,7 +1037,7 @@ label(4),
     execute('$maplist'/9)]).
 
 
-predicate('$$prop_meta_pred/3_$aux1'/3,354,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux1'/3,355,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(2,1),
     get_structure(maplist/2,2),
@@ -1045,7 +1046,7 @@ predicate('$$prop_meta_pred/3_$aux1'/3,354,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux2'/3,368,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux2'/3,369,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(3,1),
     get_structure(maplist/3,2),
@@ -1055,7 +1056,7 @@ predicate('$$prop_meta_pred/3_$aux2'/3,368,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux3'/3,382,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux3'/3,383,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(4,1),
     get_structure(maplist/4,2),
@@ -1066,7 +1067,7 @@ predicate('$$prop_meta_pred/3_$aux3'/3,382,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux4'/3,396,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux4'/3,397,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(5,1),
     get_structure(maplist/5,2),
@@ -1078,7 +1079,7 @@ predicate('$$prop_meta_pred/3_$aux4'/3,396,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux5'/3,410,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux5'/3,411,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(6,1),
     get_structure(maplist/6,2),
@@ -1091,7 +1092,7 @@ predicate('$$prop_meta_pred/3_$aux5'/3,410,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux6'/3,424,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux6'/3,425,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(7,1),
     get_structure(maplist/7,2),
@@ -1105,7 +1106,7 @@ predicate('$$prop_meta_pred/3_$aux6'/3,424,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux7'/3,438,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux7'/3,439,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(8,1),
     get_structure(maplist/8,2),
@@ -1120,7 +1121,7 @@ predicate('$$prop_meta_pred/3_$aux7'/3,438,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux8'/3,452,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux8'/3,453,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(9,1),
     get_structure(maplist/9,2),
@@ -1136,7 +1137,7 @@ predicate('$$prop_meta_pred/3_$aux8'/3,452,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$prop_meta_pred'/3,354,static,private,multifile,local,[
+predicate('$prop_meta_pred'/3,355,static,private,multifile,local,[
     get_variable(x(3),0),
     put_structure('$prop_meta_pred'/3,0),
     unify_local_value(x(3)),
@@ -1148,7 +1149,7 @@ predicate('$prop_meta_pred'/3,354,static,private,multifile,local,[
     execute('$call'/4)]).
 
 
-directive(354,system,[
+directive(355,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux1'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
@@ -1160,7 +1161,7 @@ directive(354,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(368,system,[
+directive(369,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux2'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
@@ -1173,7 +1174,7 @@ directive(368,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(382,system,[
+directive(383,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux3'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
@@ -1187,7 +1188,7 @@ directive(382,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(396,system,[
+directive(397,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux4'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
@@ -1202,7 +1203,7 @@ directive(396,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(410,system,[
+directive(411,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux5'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
@@ -1218,7 +1219,7 @@ directive(410,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(424,system,[
+directive(425,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux6'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
@@ -1235,7 +1236,7 @@ directive(424,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(438,system,[
+directive(439,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux7'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
@@ -1253,7 +1254,7 @@ directive(438,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(452,system,[
+directive(453,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux8'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
diff --git a/src/BipsPl/os_interf.pl b/src/BipsPl/os_interf.pl
index 3b8a201..e29dffe 100644
--- a/src/BipsPl/os_interf.pl
+++ b/src/BipsPl/os_interf.pl
@@ -49,7 +49,7 @@ make_directory(PathName) :-
 
 
 delete_directory(PathName) :-
-	set_bip_name(delete_directory, 2),
+	set_bip_name(delete_directory, 1),
 	'$call_c_test'('Pl_Delete_Directory_1'(PathName)).
 
 
@@ -90,14 +90,14 @@ copy_file(PathName1, PathName2) :-
 
 
 unlink(PathName) :-
-	set_bip_name(unlink, 2),
+	set_bip_name(unlink, 1),
 	'$call_c'('Pl_Unlink_1'(PathName)).
 
 
 
 
 delete_file(PathName) :-
-	set_bip_name(delete_file, 2),
+	set_bip_name(delete_file, 1),
 	'$call_c_test'('Pl_Delete_File_1'(PathName)).
 
 
diff --git a/src/BipsPl/os_interf.wam b/src/BipsPl/os_interf.wam
index cc67fb1..95781b8 100644
--- a/src/BipsPl/os_interf.wam
+++ b/src/BipsPl/os_interf.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: os_interf.pl
-% hash: b267034c55b326f6beaf295327eb21e514e82ad9  os_interf.pl
+% hash: 2558f34cd3883199511ca2b9432071c0c74c2405  os_interf.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/os_interf.pl').
@@ -17,7 +17,7 @@ predicate(make_directory/1,44,static,private,monofile,built_in,[
 
 
 predicate(delete_directory/1,51,static,private,monofile,built_in,[
-    call_c('Pl_Set_Bip_Name_Untagged_2',[],[delete_directory,2]),
+    call_c('Pl_Set_Bip_Name_Untagged_2',[],[delete_directory,1]),
     call_c('Pl_Delete_Directory_1',[boolean],[x(0)]),
     proceed]).
 
@@ -53,13 +53,13 @@ predicate(copy_file/2,85,static,private,monofile,built_in,[
 
 
 predicate(unlink/1,92,static,private,monofile,built_in,[
-    call_c('Pl_Set_Bip_Name_Untagged_2',[],[unlink,2]),
+    call_c('Pl_Set_Bip_Name_Untagged_2',[],[unlink,1]),
     call_c('Pl_Unlink_1',[],[x(0)]),
     proceed]).
 
 
 predicate(delete_file/1,99,static,private,monofile,built_in,[
-    call_c('Pl_Set_Bip_Name_Untagged_2',[],[delete_file,2]),
+    call_c('Pl_Set_Bip_Name_Untagged_2',[],[delete_file,1]),
     call_c('Pl_Delete_File_1',[boolean],[x(0)]),
     proceed]).
 
-- 
2.43.0


From 30a45a38df110f9f21fcd08e6453970f626a1b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 02/23] fix: error context of the full-AC FD constraints, ##/2,
 listing/1 and sr_read_term/4 names the called predicate

---
 src/BipsFD/fd_bool.pl  |  2 +-
 src/BipsFD/fd_math.pl  | 12 +++---
 src/BipsPl/consult.pl  |  1 +
 src/BipsPl/consult.wam | 36 ++++++++++++++----
 src/BipsPl/src_rdr.pl  |  5 ++-
 src/BipsPl/src_rdr.wam | 85 +++++++++++++++++++++---------------------
 6 files changed, 83 insertions(+), 58 deletions(-)

diff --git a/src/BipsFD/fd_bool.pl b/src/BipsFD/fd_bool.pl
index de64eb2..74703eb 100644
--- a/src/BipsFD/fd_bool.pl
+++ b/src/BipsFD/fd_bool.pl
@@ -60,7 +60,7 @@ LE #\<=> RE :-
 	'$call_c_test'('Pl_Fd_Bool_Meta_3'(LE, RE, 2)).
 
 LE ## RE :-
-	set_bip_name(#, 2),
+	set_bip_name(##, 2),
 	'$call_c_test'('Pl_Fd_Bool_Meta_3'(LE, RE, 2)).
 
 LE #==> RE :-
diff --git a/src/BipsFD/fd_math.pl b/src/BipsFD/fd_math.pl
index e5767c5..d2bbb85 100644
--- a/src/BipsFD/fd_math.pl
+++ b/src/BipsFD/fd_math.pl
@@ -75,31 +75,31 @@ LE #>= RE :-
 
 
 LE #=# RE :-
-	set_bip_name(#=, 2),
+	set_bip_name(#=#, 2),
 	'$call_c'('Pl_Fd_Set_Full_Ac_Flag_1'(1)),
 	'$call_c_test'('Pl_Fd_Eq_2'(LE, RE)).
 
 LE #\=# RE :-
-	set_bip_name(#\=, 2),
+	set_bip_name(#\=#, 2),
 	'$call_c'('Pl_Fd_Set_Full_Ac_Flag_1'(1)),
 	'$call_c_test'('Pl_Fd_Neq_2'(LE, RE)).
 
 LE #<# RE :-
-	set_bip_name(#<, 2),
+	set_bip_name(#<#, 2),
 	'$call_c'('Pl_Fd_Set_Full_Ac_Flag_1'(1)),
 	'$call_c_test'('Pl_Fd_Lt_2'(LE, RE)).
 
 LE #=<# RE :-
-	set_bip_name(#=<, 2),
+	set_bip_name(#=<#, 2),
 	'$call_c'('Pl_Fd_Set_Full_Ac_Flag_1'(1)),
 	'$call_c_test'('Pl_Fd_Lte_2'(LE, RE)).
 
 LE #># RE :-
-	set_bip_name(#>, 2),
+	set_bip_name(#>#, 2),
 	'$call_c'('Pl_Fd_Set_Full_Ac_Flag_1'(1)),
 	'$call_c_test'('Pl_Fd_Lt_2'(RE, LE)).
 
 LE #>=# RE :-
-	set_bip_name(#>=, 2),
+	set_bip_name(#>=#, 2),
 	'$call_c'('Pl_Fd_Set_Full_Ac_Flag_1'(1)),
 	'$call_c_test'('Pl_Fd_Lte_2'(RE, LE)).
diff --git a/src/BipsPl/consult.pl b/src/BipsPl/consult.pl
index 5a7c42c..33f4c9e 100644
--- a/src/BipsPl/consult.pl
+++ b/src/BipsPl/consult.pl
@@ -557,6 +557,7 @@ listing(N) :-
 	'$listing_all'(N/_).
 
 listing(PI) :-
+	( '$current_predicate'(PI) -> true ; true ), % check PI here: setof/3 in '$listing_all' changes the context
 	'$listing_all'(PI).
 
 
diff --git a/src/BipsPl/consult.wam b/src/BipsPl/consult.wam
index c161d94..fc06686 100644
--- a/src/BipsPl/consult.wam
+++ b/src/BipsPl/consult.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: consult.pl
-% hash: 60672638177dc2f83e4449ffa409fe8cd03d948d  consult.pl
+% hash: a00230c3e93b694342d3c8bf1750f97f2e66ba90  consult.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/consult.pl').
@@ -1610,10 +1610,32 @@ label(1),
 
 label(2),
     trust_me_else_fail,
+    allocate(1),
+    get_variable(y(0),0),
+    put_value(y(0),0),
+    call('$listing/1_$aux1'/1),
+    put_value(y(0),0),
+    deallocate,
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_any'/0,566,static,private,monofile,built_in,[
+predicate('$listing/1_$aux1'/1,559,static,private,monofile,local,[
+    pragma_arity(2),
+    get_current_choice(x(1)),
+    try_me_else(1),
+    allocate(1),
+    get_variable(y(0),1),
+    call('$current_predicate'/1),
+    cut(y(0)),
+    deallocate,
+    proceed,
+
+label(1),
+    trust_me_else_fail,
+    proceed]).
+
+
+predicate('$listing_any'/0,567,static,private,monofile,built_in,[
     allocate(0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],['$listing_any',0]),
     put_integer(5,0),
@@ -1624,7 +1646,7 @@ predicate('$listing_any'/0,566,static,private,monofile,built_in,[
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_any'/1,573,static,private,monofile,built_in,[
+predicate('$listing_any'/1,574,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1656,7 +1678,7 @@ label(2),
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_all'/1,593,static,private,monofile,built_in,[
+predicate('$listing_all'/1,594,static,private,monofile,built_in,[
     try_me_else(1),
     allocate(3),
     get_variable(x(2),0),
@@ -1688,7 +1710,7 @@ label(1),
     proceed]).
 
 
-predicate('$listing_one_pi'/3,603,static,private,monofile,built_in,[
+predicate('$listing_one_pi'/3,604,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -1710,7 +1732,7 @@ predicate('$listing_one_pi'/3,603,static,private,monofile,built_in,[
     execute('$predicate_property_pi_any'/2)]).
 
 
-predicate('$$listing_one_pi/3_$aux1'/1,603,static,private,monofile,local,[
+predicate('$$listing_one_pi/3_$aux1'/1,604,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1739,7 +1761,7 @@ label(1),
     execute('$not_aux_name'/1)]).
 
 
-predicate('$listing_one'/1,629,static,private,monofile,built_in,[
+predicate('$listing_one'/1,630,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
diff --git a/src/BipsPl/src_rdr.pl b/src/BipsPl/src_rdr.pl
index eb7a58a..de23f47 100644
--- a/src/BipsPl/src_rdr.pl
+++ b/src/BipsPl/src_rdr.pl
@@ -249,13 +249,14 @@ sr_new_pass(D) :-
 
 
 sr_read_term(D, Term, Options, SRError) :-
+	set_bip_name(sr_read_term, 4),
 	'$call_c'('Pl_SR_Check_Descriptor_1'(D)),
 	repeat,
 	'$call_c'('Pl_SR_Get_Stm_For_Read_Term_1'(Stm)),
 	Stream = '$stream'(Stm),
-	set_bip_name(sr_read_term, 3),
+	set_bip_name(sr_read_term, 4),
 	'$catch'('$read_term'(Stream, Term, Options), Excep, true,
-		 sr_read_term, 3, false),
+		 sr_read_term, 4, false),
 	'$call_c'('Pl_SR_Update_Position_0'),
 	(   var(Excep) ->
 	    '$sr_treat_term'(Term, SRError)
diff --git a/src/BipsPl/src_rdr.wam b/src/BipsPl/src_rdr.wam
index b4813a9..9b2606f 100644
--- a/src/BipsPl/src_rdr.wam
+++ b/src/BipsPl/src_rdr.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: src_rdr.pl
-% hash: 542d5e0b741a6f46e3ef7a6422b2192666b7d772  src_rdr.pl
+% hash: 26c607b0c256ca1f07639f1f4e150c807fc187c6  src_rdr.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/src_rdr.pl').
@@ -534,6 +534,7 @@ predicate(sr_read_term/4,251,static,private,monofile,built_in,[
     get_variable(y(2),2),
     get_variable(y(3),3),
     get_variable(y(4),4),
+    call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_read_term,4]),
     put_value(y(0),0),
     call_c('Pl_SR_Check_Descriptor_1',[],[x(0)]),
     call(repeat/0),
@@ -541,7 +542,7 @@ predicate(sr_read_term/4,251,static,private,monofile,built_in,[
     call_c('Pl_SR_Get_Stm_For_Read_Term_1',[],[x(1)]),
     put_structure('$stream'/1,1),
     unify_value(x(0)),
-    call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_read_term,3]),
+    call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_read_term,4]),
     put_structure('$read_term'/3,0),
     unify_value(x(1)),
     unify_local_value(y(1)),
@@ -549,7 +550,7 @@ predicate(sr_read_term/4,251,static,private,monofile,built_in,[
     put_variable(y(5),1),
     put_atom(true,2),
     put_atom(sr_read_term,3),
-    put_integer(3,4),
+    put_integer(4,4),
     put_atom(false,5),
     call('$catch'/6),
     call_c('Pl_SR_Update_Position_0',[],[]),
@@ -601,7 +602,7 @@ label(1),
     execute('$sr_error_from_exception'/2)]).
 
 
-predicate('$sr_treat_term'/2,278,static,private,monofile,built_in,[
+predicate('$sr_treat_term'/2,279,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -652,7 +653,7 @@ label(2),
     proceed]).
 
 
-predicate('$$sr_treat_term/2_$aux3'/2,286,static,private,monofile,local,[
+predicate('$$sr_treat_term/2_$aux3'/2,287,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -666,7 +667,7 @@ label(1),
     proceed]).
 
 
-predicate('$$sr_treat_term/2_$aux2'/4,286,static,private,monofile,local,[
+predicate('$$sr_treat_term/2_$aux2'/4,287,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -690,7 +691,7 @@ label(1),
     proceed]).
 
 
-predicate('$$sr_treat_term/2_$aux1'/2,278,static,private,monofile,local,[
+predicate('$$sr_treat_term/2_$aux1'/2,279,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -707,7 +708,7 @@ label(1),
     proceed]).
 
 
-predicate('$sr_exec_directive'/2,311,static,private,monofile,built_in,[
+predicate('$sr_exec_directive'/2,312,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -726,7 +727,7 @@ label(1),
     proceed]).
 
 
-predicate('$sr_directive1'/2,321,static,private,monofile,built_in,[
+predicate('$sr_directive1'/2,322,static,private,monofile,built_in,[
     switch_on_term(2,fail,fail,fail,1),
 
 label(1),
@@ -854,7 +855,7 @@ label(17),
     execute('$sr_stop_module'/3)]).
 
 
-predicate('$$sr_directive1/2_$aux3'/2,347,static,private,monofile,local,[
+predicate('$$sr_directive1/2_$aux3'/2,348,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -872,7 +873,7 @@ label(1),
     proceed]).
 
 
-predicate('$$sr_directive1/2_$aux2'/2,338,static,private,monofile,local,[
+predicate('$$sr_directive1/2_$aux2'/2,339,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -889,7 +890,7 @@ label(1),
     proceed]).
 
 
-predicate('$$sr_directive1/2_$aux1'/4,324,static,private,monofile,local,[
+predicate('$$sr_directive1/2_$aux1'/4,325,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -921,7 +922,7 @@ label(1),
     proceed]).
 
 
-predicate('$sr_op_type'/2,371,static,private,monofile,built_in,[
+predicate('$sr_op_type'/2,372,static,private,monofile,built_in,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -984,7 +985,7 @@ label(15),
     proceed]).
 
 
-predicate('$sr_start_module'/3,382,static,private,monofile,built_in,[
+predicate('$sr_start_module'/3,383,static,private,monofile,built_in,[
     get_variable(x(3),0),
     put_variable(x(0),4),
     call_c('Pl_SR_Start_Module_3',[],[x(3),x(1),x(4)]),
@@ -992,7 +993,7 @@ predicate('$sr_start_module'/3,382,static,private,monofile,built_in,[
     execute('$$sr_start_module/3_$aux1'/2)]).
 
 
-predicate('$$sr_start_module/3_$aux1'/2,382,static,private,monofile,local,[
+predicate('$$sr_start_module/3_$aux1'/2,383,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1009,7 +1010,7 @@ label(1),
     proceed]).
 
 
-predicate('$sr_stop_module'/3,391,static,private,monofile,built_in,[
+predicate('$sr_stop_module'/3,392,static,private,monofile,built_in,[
     get_variable(x(3),0),
     put_variable(x(0),4),
     call_c('Pl_SR_Stop_Module_3',[],[x(3),x(1),x(4)]),
@@ -1017,7 +1018,7 @@ predicate('$sr_stop_module'/3,391,static,private,monofile,built_in,[
     execute('$$sr_stop_module/3_$aux1'/2)]).
 
 
-predicate('$$sr_stop_module/3_$aux1'/2,391,static,private,monofile,local,[
+predicate('$$sr_stop_module/3_$aux1'/2,392,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1034,18 +1035,18 @@ label(1),
     proceed]).
 
 
-predicate(sr_current_descriptor/1,400,static,private,monofile,built_in,[
+predicate(sr_current_descriptor/1,401,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_current_descriptor,1]),
     call_c('Pl_SR_Current_Descriptor_1',[boolean],[x(0)]),
     proceed]).
 
 
-predicate('$sr_current_descriptor_alt'/0,407,static,private,monofile,built_in,[
+predicate('$sr_current_descriptor_alt'/0,408,static,private,monofile,built_in,[
     call_c('Pl_SR_Current_Descriptor_Alt_0',[boolean],[]),
     proceed]).
 
 
-predicate(sr_get_stream/2,413,static,private,monofile,built_in,[
+predicate(sr_get_stream/2,414,static,private,monofile,built_in,[
     allocate(2),
     get_variable(y(0),0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_get_stream,2]),
@@ -1059,73 +1060,73 @@ predicate(sr_get_stream/2,413,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate(sr_get_module/3,421,static,private,monofile,built_in,[
+predicate(sr_get_module/3,422,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_get_module,3]),
     call_c('Pl_SR_Get_Module_3',[boolean],[x(0),x(1),x(2)]),
     proceed]).
 
 
-predicate(sr_get_file_name/2,428,static,private,monofile,built_in,[
+predicate(sr_get_file_name/2,429,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_get_file_name,2]),
     call_c('Pl_SR_Get_File_Name_2',[boolean],[x(0),x(1)]),
     proceed]).
 
 
-predicate(sr_get_position/3,435,static,private,monofile,built_in,[
+predicate(sr_get_position/3,436,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_get_position,3]),
     call_c('Pl_SR_Get_Position_3',[boolean],[x(0),x(1),x(2)]),
     proceed]).
 
 
-predicate(sr_get_include_list/2,442,static,private,monofile,built_in,[
+predicate(sr_get_include_list/2,443,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_get_include_list,2]),
     call_c('Pl_SR_Get_Include_List_2',[boolean],[x(0),x(1)]),
     proceed]).
 
 
-predicate(sr_get_include_stream_list/2,449,static,private,monofile,built_in,[
+predicate(sr_get_include_stream_list/2,450,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_get_include_stream_list,2]),
     call_c('Pl_SR_Get_Include_Stream_List_2',[boolean],[x(0),x(1)]),
     proceed]).
 
 
-predicate(sr_get_size_counters/3,456,static,private,monofile,built_in,[
+predicate(sr_get_size_counters/3,457,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_get_size_counters,3]),
     call_c('Pl_SR_Get_Size_Counters_3',[boolean],[x(0),x(1),x(2)]),
     proceed]).
 
 
-predicate(sr_get_error_counters/3,463,static,private,monofile,built_in,[
+predicate(sr_get_error_counters/3,464,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_get_error_counters,3]),
     call_c('Pl_SR_Get_Error_Counters_3',[boolean],[x(0),x(1),x(2)]),
     proceed]).
 
 
-predicate(sr_set_error_counters/3,470,static,private,monofile,built_in,[
+predicate(sr_set_error_counters/3,471,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_set_error_counters,3]),
     call_c('Pl_SR_Set_Error_Counters_3',[],[x(0),x(1),x(2)]),
     proceed]).
 
 
-predicate(sr_write_message/4,477,static,private,monofile,built_in,[
+predicate(sr_write_message/4,478,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_write_message,4]),
     call_c('Pl_SR_Write_Message_4',[],[x(0),x(1),x(2),x(3)]),
     proceed]).
 
 
-predicate(sr_write_message/6,484,static,private,monofile,built_in,[
+predicate(sr_write_message/6,485,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_write_message,6]),
     call_c('Pl_SR_Write_Message_6',[],[x(0),x(1),x(2),x(3),x(4),x(5)]),
     proceed]).
 
 
-predicate(sr_write_message/8,491,static,private,monofile,built_in,[
+predicate(sr_write_message/8,492,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[sr_write_message,8]),
     call_c('Pl_SR_Write_Message_8',[],[x(0),x(1),x(2),x(3),x(4),x(5),x(6),x(7)]),
     proceed]).
 
 
-predicate(sr_write_error/2,498,static,private,monofile,built_in,[
+predicate(sr_write_error/2,499,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1156,7 +1157,7 @@ label(1),
     proceed]).
 
 
-predicate('$sr_write_error/2_$aux1'/6,498,static,private,monofile,local,[
+predicate('$sr_write_error/2_$aux1'/6,499,static,private,monofile,local,[
     try_me_else(1),
     call_c('Pl_Blt_Var',[fast_call,boolean],[x(0)]),
     call_c('Pl_SR_Write_Message_4',[],[x(1),x(2),x(3),x(4)]),
@@ -1168,7 +1169,7 @@ label(1),
     proceed]).
 
 
-predicate(sr_write_error/4,512,static,private,monofile,built_in,[
+predicate(sr_write_error/4,513,static,private,monofile,built_in,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1206,7 +1207,7 @@ label(1),
     proceed]).
 
 
-predicate('$sr_write_error/4_$aux1'/4,512,static,private,monofile,local,[
+predicate('$sr_write_error/4_$aux1'/4,513,static,private,monofile,local,[
     try_me_else(1),
     get_value(x(1),0),
     get_value(x(3),2),
@@ -1217,7 +1218,7 @@ label(1),
     proceed]).
 
 
-predicate(sr_write_error/6,523,static,private,monofile,built_in,[
+predicate(sr_write_error/6,524,static,private,monofile,built_in,[
     pragma_arity(7),
     get_current_choice(x(6)),
     try_me_else(1),
@@ -1259,7 +1260,7 @@ label(1),
     proceed]).
 
 
-predicate('$sr_write_error/6_$aux1'/4,523,static,private,monofile,local,[
+predicate('$sr_write_error/6_$aux1'/4,524,static,private,monofile,local,[
     try_me_else(1),
     get_value(x(1),0),
     get_value(x(3),2),
@@ -1270,7 +1271,7 @@ label(1),
     proceed]).
 
 
-predicate('$sr_get_format_args_error'/6,535,static,private,monofile,built_in,[
+predicate('$sr_get_format_args_error'/6,536,static,private,monofile,built_in,[
     try_me_else(1),
     call_c('Pl_Blt_Var',[fast_call,boolean],[x(0)]),
     execute('$pl_err_instantiation'/0),
@@ -1285,7 +1286,7 @@ label(1),
     execute('$sr_simpl_error'/5)]).
 
 
-predicate('$sr_simpl_error'/5,546,static,private,monofile,built_in,[
+predicate('$sr_simpl_error'/5,547,static,private,monofile,built_in,[
     pragma_arity(6),
     get_current_choice(x(5)),
     try_me_else(8),
@@ -1351,7 +1352,7 @@ label(8),
     proceed]).
 
 
-predicate(sr_error_from_exception/2,569,static,private,monofile,built_in,[
+predicate(sr_error_from_exception/2,570,static,private,monofile,built_in,[
     allocate(2),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -1364,7 +1365,7 @@ predicate(sr_error_from_exception/2,569,static,private,monofile,built_in,[
     execute('$sr_error_from_exception'/2)]).
 
 
-predicate('$sr_error_from_exception/2_$aux1'/1,569,static,private,monofile,local,[
+predicate('$sr_error_from_exception/2_$aux1'/1,570,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1377,7 +1378,7 @@ label(1),
     proceed]).
 
 
-predicate('$sr_error_from_exception'/2,578,static,private,monofile,built_in,[
+predicate('$sr_error_from_exception'/2,579,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(7),
-- 
2.43.0


From df06243c4a76181f5907ef80cdb53653bacf845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 03/23] fix: fail when the result of
 write_term_to_{atom,chars,codes}/3 or get_print_stream/1 does not unify

The clauses called the C function without testing its answer, so e.g.
write_term_to_atom(abc, foo, []) succeeded.
---
 src/BipsPl/arith_inl.pl  | 2 +-
 src/BipsPl/arith_inl.wam | 4 ++--
 src/BipsPl/const_io.pl   | 6 +++---
 src/BipsPl/const_io.wam  | 8 ++++----
 src/BipsPl/print.pl      | 2 +-
 src/BipsPl/print.wam     | 4 ++--
 6 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/BipsPl/arith_inl.pl b/src/BipsPl/arith_inl.pl
index 781c1fa..d3b9a2d 100644
--- a/src/BipsPl/arith_inl.pl
+++ b/src/BipsPl/arith_inl.pl
@@ -64,7 +64,7 @@ X >= Y :-
 
 
 '$arith_evaluate'(X, Y) :-		% like X is Y but does not set_bip_name
-	'$call_c'('Pl_Arith_Evaluate_2'(X, Y)).
+	'$call_c_test'('Pl_Arith_Evaluate_2'(X, Y)).
 
 
 
diff --git a/src/BipsPl/arith_inl.wam b/src/BipsPl/arith_inl.wam
index 1a02bda..f3088ad 100644
--- a/src/BipsPl/arith_inl.wam
+++ b/src/BipsPl/arith_inl.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: arith_inl.pl
-% hash: be6aae8c845a8ca7275fd8ef64313738b706e5cc  arith_inl.pl
+% hash: 9675bd4f3dc8c7c650ecc030cd69f02ff0e896bd  arith_inl.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/arith_inl.pl').
@@ -66,7 +66,7 @@ predicate((>=)/2,62,static,private,monofile,built_in,[
 
 
 predicate('$arith_evaluate'/2,66,static,private,monofile,built_in,[
-    call_c('Pl_Arith_Evaluate_2',[],[x(0),x(1)]),
+    call_c('Pl_Arith_Evaluate_2',[boolean],[x(0),x(1)]),
     proceed]).
 
 
diff --git a/src/BipsPl/const_io.pl b/src/BipsPl/const_io.pl
index 8f18f7c..fe4cc3e 100644
--- a/src/BipsPl/const_io.pl
+++ b/src/BipsPl/const_io.pl
@@ -126,7 +126,7 @@ write_term_to_atom(_Atom, Term, Options) :-
 	fail.			% undo variable_names assignments
 
 write_term_to_atom(Atom, _Term, _Options) :-
-	'$call_c'('Pl_Write_Term_To_Atom_After_1'(Atom)).
+	'$call_c_test'('Pl_Write_Term_To_Atom_After_1'(Atom)).
 
 
 write_term_to_chars(_Chars, Term, Options) :-
@@ -137,7 +137,7 @@ write_term_to_chars(_Chars, Term, Options) :-
 	fail.			% undo variable_names assignments
 
 write_term_to_chars(Chars, _Term, _Options) :-
-	'$call_c'('Pl_Write_Term_To_Chars_After_1'(Chars)).
+	'$call_c_test'('Pl_Write_Term_To_Chars_After_1'(Chars)).
 
 
 write_term_to_codes(_Codes, Term, Options) :-
@@ -148,7 +148,7 @@ write_term_to_codes(_Codes, Term, Options) :-
 	fail.			% undo variable_names assignments
 
 write_term_to_codes(Codes, _Term, _Options) :-
-	'$call_c'('Pl_Write_Term_To_Codes_After_1'(Codes)).
+	'$call_c_test'('Pl_Write_Term_To_Codes_After_1'(Codes)).
 
 
 
diff --git a/src/BipsPl/const_io.wam b/src/BipsPl/const_io.wam
index a6c11ee..9e0e9f8 100644
--- a/src/BipsPl/const_io.wam
+++ b/src/BipsPl/const_io.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: const_io.pl
-% hash: 42024e54929c83453acb2ef8a0224eb1576102e4  const_io.pl
+% hash: c82c5ac99f765bc6559d6b505780d1e173bbdfaf  const_io.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/const_io.pl').
@@ -115,7 +115,7 @@ predicate(write_term_to_atom/3,121,static,private,monofile,built_in,[
 
 label(1),
     trust_me_else_fail,
-    call_c('Pl_Write_Term_To_Atom_After_1',[],[x(0)]),
+    call_c('Pl_Write_Term_To_Atom_After_1',[boolean],[x(0)]),
     proceed]).
 
 
@@ -134,7 +134,7 @@ predicate(write_term_to_chars/3,132,static,private,monofile,built_in,[
 
 label(1),
     trust_me_else_fail,
-    call_c('Pl_Write_Term_To_Chars_After_1',[],[x(0)]),
+    call_c('Pl_Write_Term_To_Chars_After_1',[boolean],[x(0)]),
     proceed]).
 
 
@@ -153,7 +153,7 @@ predicate(write_term_to_codes/3,143,static,private,monofile,built_in,[
 
 label(1),
     trust_me_else_fail,
-    call_c('Pl_Write_Term_To_Codes_After_1',[],[x(0)]),
+    call_c('Pl_Write_Term_To_Codes_After_1',[boolean],[x(0)]),
     proceed]).
 
 
diff --git a/src/BipsPl/print.pl b/src/BipsPl/print.pl
index fb26628..e267aae 100644
--- a/src/BipsPl/print.pl
+++ b/src/BipsPl/print.pl
@@ -70,4 +70,4 @@ print(SorA, Term) :-
 get_print_stream(Stream) :-
 	set_bip_name(get_print_stream, 1),
 	'$check_stream_or_var'(Stream, Stm),
-	'$call_c'('Pl_Get_Print_Stm_1'(Stm)).
+	'$call_c_test'('Pl_Get_Print_Stm_1'(Stm)).
diff --git a/src/BipsPl/print.wam b/src/BipsPl/print.wam
index 3e1d962..e384172 100644
--- a/src/BipsPl/print.wam
+++ b/src/BipsPl/print.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: print.pl
-% hash: f86150dd1a4ba76ba75a37cf2834c3bd215257db  print.pl
+% hash: ab18890fe8b5eca6581b9b5922ec320c521ac877  print.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/print.pl').
@@ -77,5 +77,5 @@ predicate(get_print_stream/1,70,static,private,monofile,built_in,[
     call('$check_stream_or_var'/2),
     put_unsafe_value(y(0),0),
     deallocate,
-    call_c('Pl_Get_Print_Stm_1',[],[x(0)]),
+    call_c('Pl_Get_Print_Stm_1',[boolean],[x(0)]),
     proceed]).
-- 
2.43.0


From cc9a59b701ba3338355476ef3ad9110ab4af7ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 04/23] fix: trail the constraint count of an FD variable
 before changing it

---
 src/EngineFD/fd_inst.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/EngineFD/fd_inst.c b/src/EngineFD/fd_inst.c
index 0928f44..e35d28d 100644
--- a/src/EngineFD/fd_inst.c
+++ b/src/EngineFD/fd_inst.c
@@ -773,7 +773,10 @@ Pl_Fd_Create_C_Frame(CstrFct cstr_fct , WamWord *AF, WamWord *fdv_adr, Bool opti
 
   /* if ground Nb_Cstr not allocated (Fd_Int_Frame) */
   if (fdv_adr && !Fd_Variable_Is_Ground(fdv_adr))
-    Nb_Cstr(fdv_adr)++;
+    {
+      Trail_Chains_If_Necessary(fdv_adr);
+      Nb_Cstr(fdv_adr)++;
+    }
 
   CS += CONSTRAINT_FRAME_SIZE;
 
-- 
2.43.0


From 6dbdf15f7127c6d007b3d645b8ad2df5c9141959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 05/23] fix: setting the extra_cstr flag of an FD range must
 not overwrite its min

---
 src/EngineFD/fd_inst.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/EngineFD/fd_inst.c b/src/EngineFD/fd_inst.c
index e35d28d..931e241 100644
--- a/src/EngineFD/fd_inst.c
+++ b/src/EngineFD/fd_inst.c
@@ -355,7 +355,8 @@ static void Clear_Queue(void);
 	}								   \
       else if (r->extra_cstr != (range)->extra_cstr)			   \
 	{								   \
-	  FD_Bind_OV((WamWord *) &(r->extra_cstr), (range->extra_cstr));   \
+	  Trail_Range_If_Necessary(fdv_adr);				   \
+	  r->extra_cstr = (range)->extra_cstr;				   \
 	  Set_Dom_Mask(propag);						   \
 	}								   \
     }									   \
-- 
2.43.0


From a4379d55ef9d75aa5d41b35931641f3e25b3c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 06/23] fix: full-AC min and max constraints keep the bound on
 the operand that differs from the result

---
 src/BipsFD/fd_math_fd.fd | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/BipsFD/fd_math_fd.fd b/src/BipsFD/fd_math_fd.fd
index 4223e52..21ac1d1 100644
--- a/src/BipsFD/fd_math_fd.fd
+++ b/src/BipsFD/fd_math_fd.fd
@@ -619,15 +619,11 @@ pl_min_x_y_eq_z_F(fdv X, fdv Y, fdv Z)
 		stop c1
 		stop c2
 		stop c3
-		stop c4
-		stop c5
 		start Z in dom(X)                                 /* Z = X */
 		start X in dom(Z)
 
 	case Pl_Range_Test_Null_Inter(dom(X), dom(Z))     /* case : X != Z */
 		stop c1
-		stop c2
-		stop c3
 		stop c4
 		stop c5
 		start Z in dom(Y)                                 /* Z = Y */
@@ -749,15 +745,11 @@ pl_max_x_y_eq_z_F(fdv X, fdv Y, fdv Z)
 		stop c1
 		stop c2
 		stop c3
-		stop c4
-		stop c5
 		start Z in dom(X)                                 /* Z = X */
 		start X in dom(Z)
 
 	case Pl_Range_Test_Null_Inter(dom(X), dom(Z))      /* case : X != Z */
 		stop c1
-		stop c2
-		stop c3
 		stop c4
 		stop c5
 		start Z in dom(Y)                                 /* Z = Y */
-- 
2.43.0


From 032f741448cda7d557b4267f8c88f1163132f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 07/23] fix: (<<)/2 detects the overflow of a negative operand
 and shifts a negative operand right by the lowest integer to -1

---
 src/BipsPl/arith_inl_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index fa0101e..d6c96ff 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1004,7 +1004,7 @@ Pl_Fct_Fast_Shl(WamWord x_word, WamWord y_word)
   if (y < 0)
     {
       if (y == INT_LOWEST_VALUE)
-	  return Tag_INT(0);
+	return Tag_INT((x >= 0) ? 0 : -1);
       return Pl_Fct_Fast_Shr(x_word, Tag_INT(-y));
     }
   
@@ -1016,7 +1016,7 @@ Pl_Fct_Fast_Shl(WamWord x_word, WamWord y_word)
     }
   else
     {
-      if (x > (INT_GREATEST_VALUE >> y))
+      if (x > (INT_GREATEST_VALUE >> y) || x < (INT_LOWEST_VALUE >> y))
 	Pl_Err_Evaluation(pl_evaluation_int_overflow);
       z = x << y;
     }
-- 
2.43.0


From 19db697e3b833a9a24f9614facca881dc74cea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 08/23] fix: lsb/1, msb/1 and popcount/1 give the operand as
 culprit of their domain error

---
 src/BipsPl/arith_inl_c.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index d6c96ff..b11172f 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1052,7 +1052,7 @@ Pl_Fct_Fast_LSB(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT((x == 0) ? -1 : Pl_Least_Significant_Bit(x));
 }
 
@@ -1061,7 +1061,7 @@ Pl_Fct_Fast_MSB(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT((x == 0) ? -1 : Pl_Most_Significant_Bit(x));
 }
 
@@ -1070,7 +1070,7 @@ Pl_Fct_Fast_Popcount(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT(Pl_Count_Set_Bits(x));
 }
 
-- 
2.43.0


From da7d17247d4fae12b9382190bf9c0555ee4e86f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 09/23] fix: gcd/2 of the lowest integer with itself is an
 int_overflow

---
 src/BipsPl/arith_inl_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index b11172f..845cd00 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1096,7 +1096,7 @@ Pl_Fct_Fast_GCD(WamWord x_word, WamWord y_word)
   PlLong x = UnTag_INT(x_word);
   PlLong y = UnTag_INT(y_word);
 
-  if ((x == INT_LOWEST_VALUE && y == 0) ||
+  if ((x == INT_LOWEST_VALUE && (y == 0 || y == INT_LOWEST_VALUE)) ||
       (x == 0 && y == INT_LOWEST_VALUE))
     Pl_Err_Evaluation(pl_evaluation_int_overflow);
 
-- 
2.43.0


From c48098f892e9e6b6f7add97b8ad4320128519544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 10/23] fix: succ/2 tests the sign of the dereferenced second
 argument

---
 src/BipsPl/arith_inl_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index 845cd00..c304fae 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -555,9 +555,9 @@ Pl_Succ_2(WamWord x_word, WamWord y_word)
       DEREF(y_word, word, tag_mask);
       if (tag_mask == TAG_INT_MASK)
 	{
-	  y = UnTag_INT(y_word);
+	  y = UnTag_INT(word);
 	  if (y < 0)
-	    Pl_Err_Domain(pl_domain_not_less_than_zero, y_word);
+	    Pl_Err_Domain(pl_domain_not_less_than_zero, word);
 	}
       else if (tag_mask == TAG_REF_MASK)
 	{
-- 
2.43.0


From aff761016aa0d5e0bce07c44b62e25470765e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 11/23] fix: evaluable_property/2 gives the template of the
 rounding functors as float to integer

---
 src/BipsPl/arith_inl.pl  | 4 ++--
 src/BipsPl/arith_inl.wam | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/BipsPl/arith_inl.pl b/src/BipsPl/arith_inl.pl
index d3b9a2d..5d14913 100644
--- a/src/BipsPl/arith_inl.pl
+++ b/src/BipsPl/arith_inl.pl
@@ -173,8 +173,8 @@ evaluable_property(Head, _) :-
 	Return = float.
 
 '$evaluable_prop_template'('F=I', Func, InputTerm, Return) :-
-	InputTerm =.. [Func, integer],
-	Return = float.
+	InputTerm =.. [Func, float],
+	Return = integer.
 
 '$evaluable_prop_template'('I=I', Func, InputTerm, Return) :-
 	InputTerm =.. [Func, integer],
diff --git a/src/BipsPl/arith_inl.wam b/src/BipsPl/arith_inl.wam
index f3088ad..a30aab3 100644
--- a/src/BipsPl/arith_inl.wam
+++ b/src/BipsPl/arith_inl.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: arith_inl.pl
-% hash: 9675bd4f3dc8c7c650ecc030cd69f02ff0e896bd  arith_inl.pl
+% hash: e67a1a6e5e70137809dbce2d0daecb55b9d09e1d  arith_inl.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/arith_inl.pl').
@@ -310,10 +310,10 @@ label(7),
     put_list(0),
     unify_local_value(x(1)),
     unify_list,
-    unify_atom(integer),
+    unify_atom(float),
     unify_nil,
     call_c('Pl_Blt_Univ',[fast_call,boolean],[x(2),x(0)]),
-    get_atom(float,3),
+    get_atom(integer,3),
     proceed,
 
 label(8),
-- 
2.43.0


From e681e07fe5cab6c8dd2da1f788e1d70dbe14b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 12/23] fix: Pl_Power stops at the greatest integer instead of
 wrapping around

---
 src/BipsFD/oper_supp.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/BipsFD/oper_supp.c b/src/BipsFD/oper_supp.c
index 7ee5c02..0c61d09 100644
--- a/src/BipsFD/oper_supp.c
+++ b/src/BipsFD/oper_supp.c
@@ -91,13 +91,18 @@ Pl_Power(unsigned x, unsigned n)
   while (n)
     {
       if (n & 1)
-	xn *= xp;
-      xp *= xp;
+	{
+	  if (xn > INTERVAL_MAX_INTEGER / xp)
+	    return INTERVAL_MAX_INTEGER;
+	  xn *= xp;
+	}
       n >>= 1;
+      if (n && xp > INTERVAL_MAX_INTEGER / xp)
+	return INTERVAL_MAX_INTEGER;	/* xp is still to be multiplied to xn */
+      xp *= xp;
     }
 
-  return ((PlLong) xn > 0 && (PlLong) xn <= INTERVAL_MAX_INTEGER)
-    ? xn : INTERVAL_MAX_INTEGER;
+  return xn;
 }
 
 
-- 
2.43.0


From c8461f406712aafe0c4eddd41de91ecab77c7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 13/23] fix: Find_Expon_General does not record powers that
 wrapped around

---
 src/BipsFD/oper_supp.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/BipsFD/oper_supp.c b/src/BipsFD/oper_supp.c
index 0c61d09..9f950b7 100644
--- a/src/BipsFD/oper_supp.c
+++ b/src/BipsFD/oper_supp.c
@@ -347,17 +347,16 @@ Find_Expon_General(unsigned x, unsigned y, unsigned *pxn)
   static unsigned txp[sizeof(unsigned) * 8];
   unsigned *p = txp;
   unsigned xp;
-  unsigned prod;
   unsigned n;
   unsigned xn;
 
   p = txp;
   xp = x;
-  prod = 1;
-  while (prod < y && (PlLong) xp > 0)
+  while (xp <= y)
     {
       *p++ = xp;
-      prod *= xp;
+      if (xp > y / xp)		/* xp * xp is greater than y (and could overflow) */
+	break;
       xp *= xp;
     }
 
-- 
2.43.0


From f34053afbbb77a5ddc748e39e3aa6b47866946a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:27 +0000
Subject: [PATCH 14/23] fix: fd_element/3 and fd_element_var/3 do not write
 outside of the vector of the range

---
 src/BipsFD/fd_symbolic_c.c | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/BipsFD/fd_symbolic_c.c b/src/BipsFD/fd_symbolic_c.c
index e54c524..9bc582d 100644
--- a/src/BipsFD/fd_symbolic_c.c
+++ b/src/BipsFD/fd_symbolic_c.c
@@ -170,11 +170,12 @@ Pl_Fd_Element_I(Range *i, WamWord *l)
 void
 Pl_Fd_Element_I_To_V(Range *v, Range *i, WamWord *l)
 {
-  int val;
+  WamWord val;
   int j;
 
   /* when I changes -> update V */
 
+  v->extra_cstr = i->extra_cstr;
   Vector_Allocate(v->vec);
   Pl_Vector_Empty(v->vec);
 
@@ -182,16 +183,22 @@ Pl_Fd_Element_I_To_V(Range *v, Range *i, WamWord *l)
     {
       for (j = i->min; j <= i->max; j++)
 	{
-	  val = (int) (l[j]);
-	  Vector_Set_Value(v->vec, val);
+	  val = l[j];
+	  if (val < 0 || val > pl_vec_max_integer)
+	    v->extra_cstr = TRUE;
+	  else
+	    Vector_Set_Value(v->vec, val);
 	}
     }
   else
     {
       VECTOR_BEGIN_ENUM(i->vec, j);
 
-      val = (int) (l[j]);
-      Vector_Set_Value(v->vec, val);
+      val = l[j];
+      if (val < 0 || val > pl_vec_max_integer)
+	v->extra_cstr = TRUE;
+      else
+	Vector_Set_Value(v->vec, val);
 
       VECTOR_END_ENUM;
     }
@@ -209,12 +216,13 @@ Pl_Fd_Element_I_To_V(Range *v, Range *i, WamWord *l)
 void
 Pl_Fd_Element_V_To_I(Range *i, Range *v, WamWord *l)
 {
-  int val;
+  WamWord val;
   int n;
   int j;
 
   /* when V changes -> update I */
 
+  i->extra_cstr = v->extra_cstr;
   Vector_Allocate(i->vec);
   Pl_Vector_Empty(i->vec);
 
@@ -222,8 +230,12 @@ Pl_Fd_Element_V_To_I(Range *i, Range *v, WamWord *l)
 
   for (j = 1; j <= n; j++)
     {
-      val = (int) (l[j]);		/* val=Lj */
-      if (Pl_Range_Test_Value(v, val))
+      val = l[j];		/* val=Lj */
+      if (val < 0 || val > INTERVAL_MAX_INTEGER || !Pl_Range_Test_Value(v, (int) val))
+	continue;
+      if (j > pl_vec_max_integer)
+	i->extra_cstr = TRUE;
+      else
 	Vector_Set_Value(i->vec, j);
     }
 
@@ -298,6 +310,7 @@ Pl_Fd_Element_Var_V_To_I(Range *i, Range *v, WamWord **l)
   int n;
   int j;
 
+  i->extra_cstr = v->extra_cstr;
   Vector_Allocate(i->vec);
   Pl_Vector_Empty(i->vec);
   /* when V or L changes -> update I */
@@ -307,8 +320,12 @@ Pl_Fd_Element_Var_V_To_I(Range *i, Range *v, WamWord **l)
   for (j = 1; j <= n; j++)
     {
       fdv_adr = l[j];
-      if (!Pl_Range_Test_Null_Inter(Range(fdv_adr), v))
-	  Vector_Set_Value(i->vec, j);
+      if (Pl_Range_Test_Null_Inter(Range(fdv_adr), v))
+	continue;
+      if (j > pl_vec_max_integer)
+	i->extra_cstr = TRUE;
+      else
+	Vector_Set_Value(i->vec, j);
     }
 
   Pl_Range_From_Vector(i);
-- 
2.43.0


From 9f665d6a12063630003f8dffeac3141c214f3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 15/23] fix: fd_labeling/2 labels the variable selected even
 when the ground ones are dropped from its array

---
 src/BipsFD/fd_values_c.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/BipsFD/fd_values_c.c b/src/BipsFD/fd_values_c.c
index 4fe2811..ec66fa2 100644
--- a/src/BipsFD/fd_values_c.c
+++ b/src/BipsFD/fd_values_c.c
@@ -637,6 +637,8 @@ Pl_Fd_Sel_Array_Pick_Var_4(WamWord sel_array_word, WamWord method_word,
   if (res_elem == NULL)
     return FALSE;
 
+  fdv_adr = *res_elem;		/* before packing, which can move it */
+
 #ifdef PACK_ARRAY
   if (n > 50 && nb_ground >= n / 2)
     {
@@ -645,8 +647,7 @@ Pl_Fd_Sel_Array_Pick_Var_4(WamWord sel_array_word, WamWord method_word,
       array[-1] = (WamWord *) (PlLong) n;
       for (p = q = array; n; p++)
 	{
-	  fdv_adr = *p;
-	  if (!Fd_Variable_Is_Ground(fdv_adr))
+	  if (!Fd_Variable_Is_Ground(*p))
 	    {
 	      *q++ = *p;
 	      n--;
@@ -655,8 +656,6 @@ Pl_Fd_Sel_Array_Pick_Var_4(WamWord sel_array_word, WamWord method_word,
     }
 #endif
 
-  fdv_adr = *res_elem;
-
 finish:
   return Pl_Unify(Tag_REF(fdv_adr), fdv_word);
 }
-- 
2.43.0


From 3630bf23d9b03dfd587c2350e2ef16d5d4cd31fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 16/23] fix: an FD variable does not unify with an integer out
 of the range of int

---
 src/EngineFD/fd_inst.c  | 8 ++++++--
 src/EngineFD/fd_inst.h  | 2 +-
 src/EnginePl/if_no_fd.c | 2 +-
 src/EnginePl/if_no_fd.h | 4 ++--
 src/EnginePl/unify.c    | 4 ++--
 src/EnginePl/wam_inst.c | 4 ++--
 6 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/EngineFD/fd_inst.c b/src/EngineFD/fd_inst.c
index 931e241..eec99c0 100644
--- a/src/EngineFD/fd_inst.c
+++ b/src/EngineFD/fd_inst.c
@@ -1518,12 +1518,16 @@ Pl_Fd_Assign_Value_Fast(WamWord *fdv_adr, int n)
  *                                                                         *
  *-------------------------------------------------------------------------*/
 Bool
-Pl_Fd_Unify_With_Integer0(WamWord *fdv_adr, int n)
+Pl_Fd_Unify_With_Integer0(WamWord *fdv_adr, PlLong n)
 {
+  /* n is the value of any Prolog integer (Fd only uses int) */
+  if (n < 0 || n > INTERVAL_MAX_INTEGER)
+    return FALSE;
+
   /* Pl_Unify(X,n) == X in n..n */
   Pl_Fd_Before_Add_Cstr();
 
-  return Pl_Fd_After_Add_Cstr(Pl_Fd_Tell_Value(fdv_adr, n));
+  return Pl_Fd_After_Add_Cstr(Pl_Fd_Tell_Value(fdv_adr, (int) n));
 }
 
 
diff --git a/src/EngineFD/fd_inst.h b/src/EngineFD/fd_inst.h
index 6e35d6b..e6a75d0 100644
--- a/src/EngineFD/fd_inst.h
+++ b/src/EngineFD/fd_inst.h
@@ -265,7 +265,7 @@ Bool Pl_Fd_Assign_Value_Fast(WamWord *fdv_adr, int n);
 
 #define Pl_Fd_Assign_Value(fdv, n) Pl_Fd_Unify_With_Integer0(fdv, n)
 
-Bool Pl_Fd_Unify_With_Integer0(WamWord *fdv_adr, int n);
+Bool Pl_Fd_Unify_With_Integer0(WamWord *fdv_adr, PlLong n);
 
 Bool Pl_Fd_Unify_With_Fd_Var0(WamWord *fdv_adr1, WamWord *fdv_adr2);
 
diff --git a/src/EnginePl/if_no_fd.c b/src/EnginePl/if_no_fd.c
index a3b006a..08d8d9c 100644
--- a/src/EnginePl/if_no_fd.c
+++ b/src/EnginePl/if_no_fd.c
@@ -84,7 +84,7 @@ Pl_Fd_Init_Solver(void)
 {
   if (pl_fd_init_solver == NULL)	/* FD solver not linked */
     {
-      pl_fd_unify_with_integer = (Bool (*)(WamWord *, int)) Fd_Solver_Missing;
+      pl_fd_unify_with_integer = (Bool (*)(WamWord *, PlLong)) Fd_Solver_Missing;
       pl_fd_unify_with_fd_var = (Bool (*)(WamWord *, WamWord *)) Fd_Solver_Missing;
       pl_fd_variable_size = (int (*)(WamWord *)) Fd_Solver_Missing;
       pl_fd_copy_variable = (int (*)(WamWord *, WamWord *)) Fd_Solver_Missing;
diff --git a/src/EnginePl/if_no_fd.h b/src/EnginePl/if_no_fd.h
index 6e6e7a3..6e988e6 100644
--- a/src/EnginePl/if_no_fd.h
+++ b/src/EnginePl/if_no_fd.h
@@ -54,7 +54,7 @@
 void (*pl_fd_init_solver) (void);	/* overwritten by FD if present */
 void (*pl_fd_reset_solver) (void);
 
-Bool (*pl_fd_unify_with_integer) (WamWord *fdv_adr, int n);
+Bool (*pl_fd_unify_with_integer) (WamWord *fdv_adr, PlLong n);
 Bool (*pl_fd_unify_with_fd_var) (WamWord *fdv_adr1, WamWord *fdv_adr2);
 int (*pl_fd_variable_size) (WamWord *fdv_adr);
 int (*pl_fd_copy_variable) (WamWord *dst_adr, WamWord *fdv_adr);
@@ -64,7 +64,7 @@ char *(*pl_fd_variable_to_string) (WamWord *fdv_adr);
 
 extern void (*pl_fd_init_solver) (void);
 extern void (*pl_fd_reset_solver) (void);
-extern Bool (*pl_fd_unify_with_integer) (WamWord *fdv_adr, int n);
+extern Bool (*pl_fd_unify_with_integer) (WamWord *fdv_adr, PlLong n);
 extern Bool (*pl_fd_unify_with_fd_var) (WamWord *fdv_adr1, WamWord *fdv_adr2);
 extern int (*pl_fd_variable_size) (WamWord *fdv_adr);
 extern int (*pl_fd_copy_variable) (WamWord *dst_adr, WamWord *fdv_adr);
diff --git a/src/EnginePl/unify.c b/src/EnginePl/unify.c
index f4444be..06d4511 100644
--- a/src/EnginePl/unify.c
+++ b/src/EnginePl/unify.c
@@ -148,14 +148,14 @@ UNIFY_FCT_NAME(WamWord start_u_word, WamWord start_v_word)
 
 #ifndef NO_USE_FD_SOLVER
   if (v_tag_mask == TAG_INT_MASK && u_tag_mask == TAG_FDV_MASK)
-    return Fd_Unify_With_Integer(UnTag_FDV(u_word), (int) UnTag_INT(v_word));
+    return Fd_Unify_With_Integer(UnTag_FDV(u_word), UnTag_INT(v_word));
 
   if (v_tag_mask == TAG_FDV_MASK)
     {
       v_adr = UnTag_FDV(v_word);
 
       if (u_tag_mask == TAG_INT_MASK)
-	return Fd_Unify_With_Integer(v_adr, (int) UnTag_INT(u_word));
+	return Fd_Unify_With_Integer(v_adr, UnTag_INT(u_word));
 
       if (u_tag_mask != v_tag_mask) /* i.e. TAG_FDV_MASK */
 	return FALSE;
diff --git a/src/EnginePl/wam_inst.c b/src/EnginePl/wam_inst.c
index e54c22d..8a8b7de 100644
--- a/src/EnginePl/wam_inst.c
+++ b/src/EnginePl/wam_inst.c
@@ -256,7 +256,7 @@ Pl_Get_Integer_Tagged(WamWord w, WamWord start_word)
 
 #ifndef NO_USE_FD_SOLVER
   if (tag_mask == TAG_FDV_MASK)
-    return Fd_Unify_With_Integer(UnTag_FDV(word), (int) UnTag_INT(w));
+    return Fd_Unify_With_Integer(UnTag_FDV(word), UnTag_INT(w));
 #endif
 
   return (word == w);
@@ -875,7 +875,7 @@ Pl_Unify_Integer_Tagged(WamWord w)
 
 #ifndef NO_USE_FD_SOLVER
       if (tag_mask == TAG_FDV_MASK)
-	return Fd_Unify_With_Integer(UnTag_FDV(word), (int) UnTag_INT(w));
+	return Fd_Unify_With_Integer(UnTag_FDV(word), UnTag_INT(w));
 #endif
 
       return (word == w);
-- 
2.43.0


From d3228172bc02544baa9b987942f339db147e67f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 17/23] fix: setarg/3 does not store a reference to the local
 stack or a copy of an FD variable

---
 src/BipsPl/term_inl_c.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/term_inl_c.c b/src/BipsPl/term_inl_c.c
index cca2400..dc6f090 100644
--- a/src/BipsPl/term_inl_c.c
+++ b/src/BipsPl/term_inl_c.c
@@ -493,7 +493,7 @@ Pl_Setarg_4(WamWord arg_no_word, WamWord term_word, WamWord new_value_word,
   WamWord word, tag_mask;
   int func, arity;
   int undo;
-  WamWord *arg_adr;
+  WamWord *adr, *arg_adr;
   PlULong arg_no;
 
   arg_adr = Pl_Rd_Compound_Check(term_word, &func, &arity);
@@ -507,6 +507,11 @@ Pl_Setarg_4(WamWord arg_no_word, WamWord term_word, WamWord new_value_word,
   if (arg_no >= (PlULong) arity) /* include arg_no < 0 since arg_no is a PlULong */
     return FALSE;
 
+  if (tag_mask == TAG_REF_MASK && Is_A_Local_Adr(adr = UnTag_REF(word)))
+    Globalize_Local_Unbound_Var(adr, word);
+  else
+    Do_Copy_Of_Word(tag_mask, word);
+
   if (undo)
     Bind_OV((arg_adr + arg_no), word);
   else
-- 
2.43.0


From e3d699abad5315334e71a2cbcd6335f53f63d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 18/23] fix: findall/4 does not store a reference to the local
 stack in the list of solutions

---
 src/BipsPl/all_solut_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/all_solut_c.c b/src/BipsPl/all_solut_c.c
index f8e534e..2def368 100644
--- a/src/BipsPl/all_solut_c.c
+++ b/src/BipsPl/all_solut_c.c
@@ -430,7 +430,7 @@ Pl_Recover_Solutions_4(WamWord stop_word, WamWord handle_key_word,
       Free(s);
     }
 
-  q[-1] = tail_word;
+  q[-1] = Pl_Globalize_If_In_Local(tail_word);
   return Pl_Unify(Tag_LST(p), list_word);
 }
 
-- 
2.43.0


From e101844caec4b4a4a0ecb8e6d9ae4217abf8975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 19/23] fix: memberchk/2 does not store a reference to the
 local stack in the list it extends

---
 src/BipsPl/list_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/list_c.c b/src/BipsPl/list_c.c
index 9f14da8..9c0a332 100644
--- a/src/BipsPl/list_c.c
+++ b/src/BipsPl/list_c.c
@@ -282,7 +282,7 @@ Pl_Memberchk_2(WamWord elem_word, WamWord list_word)
 	  break;
 	}
 
-      if (Pl_Unify_Value(elem_word)) /* unification will trail */
+      if (Pl_Unify_Local_Value(elem_word)) /* unification will trail */
 	{
 	  Pl_Unify_Void(1);  /* important if in write mode (list_word is a var) */
 	  ret = TRUE;
-- 
2.43.0


From 53a1a2b3e96e3ed9392a2dc8ca6c7e788b7a126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 20/23] fix: Pl_Globalize_If_In_Local does not return a
 reference to a bound variable of the local stack

---
 src/EnginePl/wam_inst.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/EnginePl/wam_inst.c b/src/EnginePl/wam_inst.c
index 8a8b7de..0827b24 100644
--- a/src/EnginePl/wam_inst.c
+++ b/src/EnginePl/wam_inst.c
@@ -1004,14 +1004,14 @@ Pl_Globalize_If_In_Local(WamWord start_word)
   WamWord *adr;
 
   DEREF(start_word, word, tag_mask);
-  if (tag_mask == TAG_REF_MASK)
+  if (tag_mask == TAG_REF_MASK && Is_A_Local_Adr(adr = UnTag_REF(word)))
+    Globalize_Local_Unbound_Var(adr, word);
+  else
     {
-      adr = UnTag_REF(word);
-      if (Is_A_Local_Adr(adr))
-	Globalize_Local_Unbound_Var(adr, start_word);
+      Do_Copy_Of_Word(tag_mask, word);
     }
 
-  return start_word;
+  return word;
 }
 
 
-- 
2.43.0


From fe9667ba830f280cf2d936f10e1302719f2c9e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:01 +0000
Subject: [PATCH 21/23] fix: the functions of the C interface that build terms
 do not store references to the local stack

---
 src/BipsPl/c_supp.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/BipsPl/c_supp.c b/src/BipsPl/c_supp.c
index a00419e..57df66c 100644
--- a/src/BipsPl/c_supp.c
+++ b/src/BipsPl/c_supp.c
@@ -2327,7 +2327,7 @@ Pl_Un_List_Check(WamWord *arg, WamWord start_word)
   if (!Pl_Get_List(start_word))
     goto check_type;
 
-  return Pl_Unify_Value(arg[0]) && Pl_Unify_Value(arg[1]);
+  return Pl_Unify_Local_Value(arg[0]) && Pl_Unify_Local_Value(arg[1]);
 }
 
 
@@ -2343,7 +2343,7 @@ Pl_Un_List(WamWord *arg, WamWord start_word)
   if (arg == NULL)
     return Pl_Get_Nil(start_word);
 
-  return Pl_Get_List(start_word) && Pl_Unify_Value(arg[0]) && Pl_Unify_Value(arg[1]);
+  return Pl_Get_List(start_word) && Pl_Unify_Local_Value(arg[0]) && Pl_Unify_Local_Value(arg[1]);
 }
 
 
@@ -2376,7 +2376,7 @@ Pl_Un_Proper_List(int n, WamWord *arg, WamWord start_word)
 
   while (n--)
     {
-      if (!Pl_Get_List(start_word) || !Pl_Unify_Value(*arg++))
+      if (!Pl_Get_List(start_word) || !Pl_Unify_Local_Value(*arg++))
 	return FALSE;
 
       start_word = Pl_Unify_Variable();
@@ -2411,7 +2411,7 @@ Pl_Un_Compound_Check(int func, int arity, WamWord *arg, WamWord start_word)
     }
 
   for (i = 0; i < arity; i++)
-    if (!Pl_Unify_Value(arg[i]))
+    if (!Pl_Unify_Local_Value(arg[i]))
       return FALSE;
 
   return TRUE;
@@ -2439,7 +2439,7 @@ Pl_Un_Compound(int func, int arity, WamWord *arg, WamWord start_word)
     return FALSE;
 
   for (i = 0; i < arity; i++)
-    if (!Pl_Unify_Value(arg[i]))
+    if (!Pl_Unify_Local_Value(arg[i]))
       return FALSE;
 
   return TRUE;
@@ -2471,7 +2471,7 @@ Pl_Un_Callable_Check(int func, int arity, WamWord *arg, WamWord start_word)
     }
 
   for (i = 0; i < arity; i++)
-    if (!Pl_Unify_Value(arg[i]))
+    if (!Pl_Unify_Local_Value(arg[i]))
       return FALSE;
 
   return TRUE;
@@ -2754,8 +2754,8 @@ Pl_Mk_List(WamWord *arg)
     return NIL_WORD;
 
   res_word = Pl_Put_List();
-  Pl_Unify_Value(arg[0]);
-  Pl_Unify_Value(arg[1]);
+  Pl_Unify_Local_Value(arg[0]);
+  Pl_Unify_Local_Value(arg[1]);
 
   return res_word;
 }
@@ -2795,7 +2795,7 @@ Pl_Mk_Proper_List(int n, WamWord *arg)
       p = dst--;
       *dst = Tag_LST(p);
     entry:
-      *--dst = *--src;
+      *--dst = Pl_Globalize_If_In_Local(*--src);
     }
   while (--n);
 
@@ -2862,7 +2862,7 @@ Pl_Mk_Compound(int func, int arity, WamWord *arg)
 
   res_word = Pl_Put_Structure(func, arity);
   for (i = 0; i < arity; i++)
-    Pl_Unify_Value(arg[i]);
+    Pl_Unify_Local_Value(arg[i]);
 
   return res_word;
 }
-- 
2.43.0


From 24ebd0c37009fa23f4c9ec2c6bc2b64b71dda690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 22/23] fix: an integer that does not fit in a C int raises
 representation_error, as documented for Pl_Rd_C_Int_Check

---
 src/BipsPl/c_supp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/c_supp.c b/src/BipsPl/c_supp.c
index 57df66c..9643a49 100644
--- a/src/BipsPl/c_supp.c
+++ b/src/BipsPl/c_supp.c
@@ -293,7 +293,7 @@ int PlLong_To_C_Int(PlLong x, WamWord start_word) {
 #define C_INT_MAX ( ((PlLong) 1 << (8 * SIZEOF_INT - 1)) - 1)
 
   if (x < C_INT_MIN || x > C_INT_MAX)
-    Pl_Err_Domain(pl_representation_integer_32bits, start_word);
+    Pl_Err_Representation(pl_representation_integer_32bits);
 
 #endif
 
-- 
2.43.0


From 80383b8aa7d6fc4ef10d7065cb15c430248e22c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:33 +0000
Subject: [PATCH 23/23] fix: findall/bagof/setof ignore solutions left by an
 inner findall that an exception ended

---
 src/BipsPl/all_solut.pl  |  2 +-
 src/BipsPl/all_solut.wam | 22 +++++++++-------
 src/BipsPl/all_solut_c.c | 57 +++++++++++++++++++++++++++++++---------
 3 files changed, 59 insertions(+), 22 deletions(-)

diff --git a/src/BipsPl/all_solut.pl b/src/BipsPl/all_solut.pl
index 6ccf423..c4eff85 100644
--- a/src/BipsPl/all_solut.pl
+++ b/src/BipsPl/all_solut.pl
@@ -103,7 +103,7 @@ bagof(Template, Generator, Instances) :-
 '$store_solutions'(Template, Generator, Stop, BipFunc, BipArity) :-
 	'$call_c'('Pl_Stop_Mark_1'(Stop)),
 	(   '$call'(Generator, BipFunc, BipArity, true),
-	    '$call_c'('Pl_Store_Solution_1'(Template)),
+	    '$call_c'('Pl_Store_Solution_2'(Template, Stop)),
 	    fail
 	;   true
 	).
diff --git a/src/BipsPl/all_solut.wam b/src/BipsPl/all_solut.wam
index a68d0ed..8773350 100644
--- a/src/BipsPl/all_solut.wam
+++ b/src/BipsPl/all_solut.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: all_solut.pl
-% hash: 7d0ee7eaf19ee8e6ecfa0b993f204ab7e8376ae8  all_solut.pl
+% hash: 2ab1d40733846884f8d7d98598c567d6f4509e52  all_solut.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/all_solut.pl').
@@ -179,23 +179,27 @@ label(1),
 
 
 predicate('$store_solutions'/5,103,static,private,monofile,built_in,[
-    get_variable(x(5),3),
+    get_variable(x(5),4),
+    get_variable(x(6),3),
+    get_variable(x(4),2),
     get_variable(x(3),0),
-    call_c('Pl_Stop_Mark_1',[],[x(2)]),
+    call_c('Pl_Stop_Mark_1',[],[x(4)]),
     put_value(x(1),0),
-    put_value(x(5),1),
-    put_value(x(4),2),
-    execute('$$store_solutions/5_$aux1'/4)]).
+    put_value(x(6),1),
+    put_value(x(5),2),
+    execute('$$store_solutions/5_$aux1'/5)]).
 
 
-predicate('$$store_solutions/5_$aux1'/4,103,static,private,monofile,local,[
+predicate('$$store_solutions/5_$aux1'/5,103,static,private,monofile,local,[
     try_me_else(1),
-    allocate(1),
+    allocate(2),
     get_variable(y(0),3),
+    get_variable(y(1),4),
     put_atom(true,3),
     call('$call'/4),
     put_value(y(0),0),
-    call_c('Pl_Store_Solution_1',[],[x(0)]),
+    put_value(y(1),1),
+    call_c('Pl_Store_Solution_2',[],[x(0),x(1)]),
     fail,
 
 label(1),
diff --git a/src/BipsPl/all_solut_c.c b/src/BipsPl/all_solut_c.c
index 2def368..c30a4ab 100644
--- a/src/BipsPl/all_solut_c.c
+++ b/src/BipsPl/all_solut_c.c
@@ -63,7 +63,8 @@ typedef struct onesol *OneSolP;
 typedef struct onesol
 {
   OneSolP prev;
-  int sol_no;
+  PlLong mark;			/* mark of the collection it belongs to */
+  int sol_no;			/* number of the solution in this collection */
   int term_size;
   WamWord term_word;
 }
@@ -87,8 +88,9 @@ static WamWord *free_var_base;
 
 
 
-static OneSol dummy = { NULL, 0, 0, NOT_A_WAM_WORD };
+static OneSol dummy = { NULL, 0, 0, 0, NOT_A_WAM_WORD };
 static OneSol *sol = &dummy;
+static PlLong last_mark = 0;
 
 static WamWord *key_var_ptr;
 static WamWord *save_key_var_ptr;
@@ -109,6 +111,10 @@ static Bool Free_Var(WamWord *adr, WamWord var_word);
 
 
 
+static void Drop_Solutions_After(PlLong mark);
+
+
+
 static void Handle_Key_Variables(WamWord start_word);
 
 static Bool Link_Key_Var(WamWord *adr, WamWord var_word);
@@ -291,9 +297,10 @@ Free_Var(WamWord *adr, WamWord var_word)
 /*-------------------------------------------------------------------------*
  * This part saves and restores all solutions found. A stack of solutions  *
  * is used (each solution is copied to a Mallocated memory area). To handle*
- * nested findall and al, each solution receive a sequential number. At the*
- * start, the number of the solution on the top of the stack serves as a   *
- * stop mark.                                                              *
+ * nested findall and al, each one receives a new mark at the start and its*
+ * solutions record this mark and a sequential number. The solutions of an *
+ * inner findall left by an exception remain on the top of the stack: they *
+ * have a greater mark and are dropped when the outer one comes back to it.*
  *                                                                         *
  * Recovering the solutions: a space for the list of (nb_sol) solutions is *
  * reserved on the top of the heap (nb_sol*2 WamWords) then each term is   *
@@ -344,31 +351,56 @@ Free_Var(WamWord *adr, WamWord var_word)
 void
 Pl_Stop_Mark_1(WamWord stop_word)
 {
-  Pl_Get_Integer(sol->sol_no, stop_word);
+  Pl_Get_Integer(++last_mark, stop_word);
 }
 
 
 
 
 /*-------------------------------------------------------------------------*
- * PL_STORE_SOLUTION_1                                                     *
+ * DROP_SOLUTIONS_AFTER                                                    *
+ *                                                                         *
+ * Drop solutions left (by an exception) by findall started after mark.    *
+ *-------------------------------------------------------------------------*/
+static void
+Drop_Solutions_After(PlLong mark)
+{
+  OneSol *s;
+
+  while (sol->mark > mark)
+    {
+      s = sol;
+      sol = sol->prev;
+      Free(s);
+    }
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * PL_STORE_SOLUTION_2                                                     *
  *                                                                         *
  *-------------------------------------------------------------------------*/
 void
-Pl_Store_Solution_1(WamWord term_word)
+Pl_Store_Solution_2(WamWord term_word, WamWord stop_word)
 {
   OneSol *s;
   int size;
+  PlLong mark = Pl_Rd_Integer(stop_word);
 /* fix_bug is because when gcc sees &xxx where xxx is a fct argument variable
  * it allocates a frame even with -fomit-frame-pointer.
  * This corrupts ebp on ix86 */
   static WamWord fix_bug;
 
+  Drop_Solutions_After(mark);
+
   size = Pl_Term_Size(term_word);
 
   s = (OneSol *) Malloc(sizeof(OneSol) - sizeof(WamWord) + size * sizeof(WamWord));
   s->prev = sol;
-  s->sol_no = sol->sol_no + 1;
+  s->mark = mark;
+  s->sol_no = (sol->mark == mark) ? sol->sol_no + 1 : 1;
   s->term_size = size;
   fix_bug = term_word;
   Pl_Copy_Term(&s->term_word, &fix_bug);
@@ -386,14 +418,15 @@ Bool
 Pl_Recover_Solutions_4(WamWord stop_word, WamWord handle_key_word,
 		       WamWord list_word, WamWord tail_word)
 {
-  int stop;
+  PlLong mark;
   int nb_sol;
   WamWord *p, *q;
   OneSol *s;
   Bool handle_key;
 
-  stop = Pl_Rd_C_Int(stop_word);
-  nb_sol = sol->sol_no - stop;
+  mark = Pl_Rd_Integer(stop_word);
+  Drop_Solutions_After(mark);
+  nb_sol = (sol->mark == mark) ? sol->sol_no : 0;
 
   if (nb_sol == 0)
     return Pl_Unify(list_word, tail_word);
-- 
2.43.0

