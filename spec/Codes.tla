---- MODULE Codes ----
(* Code tables: entry c+1 is the number of the value with code c, 0 = no such code. *)
EXTENDS Integers, Sequences

T_nation == <<2,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,0,0,54,55,0,56,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,57,58,3>>
T_event == <<2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,0,0,0,31,32,33,34,35,36,0,0,0,0,0,0,0,0,0,0,37,38,39,40,41,42,43,44,45,46,47,0,0,0,0,0,48>>
T_entry == <<2,3,4,5,6,7>>
T_cond == <<2,3,4,5,6>>
T_equip == <<2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21>>
T_clock == <<2,3,4,5,6,7>>
T_slot == <<2,3>>
T_act == <<2,3,4,5>>
T_gen == <<0,1,2>>
T_auth == <<2,3>>
T_slotcard == <<2,3,4,5,6>>

CodeTable(e) ==
  CASE e = "nation" -> T_nation
    [] e = "event" -> T_event
    [] e = "entry" -> T_entry
    [] e = "cond" -> T_cond
    [] e = "equip" -> T_equip
    [] e = "clock" -> T_clock
    [] e = "slot" -> T_slot
    [] e = "act" -> T_act
    [] e = "gen" -> T_gen
    [] e = "auth" -> T_auth
    [] e = "slotcard" -> T_slotcard
Code2Num(e, c) == IF c < Len(CodeTable(e)) THEN CodeTable(e)[c+1] ELSE 0
Nums(e) == {CodeTable(e)[i] : i \in 1..Len(CodeTable(e))} \ {0}
Num2Code(e, n) == IF n \in Nums(e) THEN (CHOOSE i \in 1..Len(CodeTable(e)) : CodeTable(e)[i] = n) - 1 ELSE -1
CodeTableNames == {"nation","event","entry","cond","equip","clock","slot","act","gen","auth","slotcard"}
====
