------------------------------- MODULE Secrecy -------------------------------
(* The typing discipline of secret integers: which one-step programs over     *)
(* secret integers the compiler accepts.                                      *)
(* A program is <<form, A, B>>: a fixed term with type holes A and B (the     *)
(* recorder renders it as Rust and asks the compiler).  Verdict is            *)
(*   "no"    the program must not exist                                       *)
(*   "yes"   the program must exist (otherwise refusals would mean nothing)   *)
(*   "any"   the property is silent                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Secret == {"U8","U16","U32","U64","U128","I8","I16","I32","I64","I128"}
Unsigned == {"U8","U16","U32","U64","U128"}
PubInt == {"u8","u16","u32","u64","u128","usize","i8","i16","i32","i64","i128","isize"}
Bounded == {"Big","SBig","Nat"}      \* secret bounded and modular integers
Public == PubInt \cup {"bool"}
SecretAll == Secret \cup Bounded

Width(T) == CASE T \in {"U8","I8","u8","i8"} -> 1
              [] T \in {"U16","I16","u16","i16"} -> 2
              [] T \in {"U32","I32","u32","i32"} -> 4
              [] T \in {"U64","I64","u64","i64","usize","isize"} -> 8
              [] T \in {"U128","I128","u128","i128"} -> 16
              [] T = "bool" -> 0
PublicOf(S) == CASE S = "U8" -> "u8" [] S = "U16" -> "u16" [] S = "U32" -> "u32" [] S = "U64" -> "u64" [] S = "U128" -> "u128"
                 [] S = "I8" -> "i8" [] S = "I16" -> "i16" [] S = "I32" -> "i32" [] S = "I64" -> "i64" [] S = "I128" -> "i128"

\* the explicit conversions that leave the secret types: unsigned, to the same width or a larger one;
\* only a byte can become an index
Widens(a, b) == \/ a \in Unsigned /\ b \in {"u8","u16","u32","u64","u128"} /\ Width(b) >= Width(a)
                \/ a = "U8" /\ b = "usize"

\* operators with a public result or a variable running time
Variable == {"div","rem","eq","ne","lt","le","gt","ge","and","or","div_assign","rem_assign","div_trait","rem_trait","eq_trait","ord_trait"}
VariableRef == {"div_ref","rem_ref","eq_ref","lt_ref"}                            \* applied to references
Shift == {"shl","shr","shl_assign","shr_assign","shl_ref","shr_ref"}              \* by a secret amount
Rotate == {"rotate_left","rotate_right","rotate_left_trait","rotate_right_trait","get_bit","get_bit_trait","set_bit","get_byte"}
\* the constant-time operators, and what must not be their result
Constant == {"add","sub","mul","bitand","bitor","bitxor","not","neg","add_assign","xor_assign","shl_u32","shr_u32"}
ConstantPub == {"add_to","sub_to","mul_to","bitand_to","bitor_to","bitxor_to","not_to","neg_to","shl_to","comp_eq_to","comp_gte_to","equal_bm_to"}
Branch == {"if","while","if_not","assert","match_int","match_bool","then"}
Containers == {"Seq<u8>","Seq<U8>","Seq<U32>","PublicSeq<u8>","SecretSeq<U8>","SecretSeq<U32>","SecArr","SecWords","PubArr","[u8; 4]","[U8; 4]","Vec<u8>","Vec<U8>","U32Word"}
\* containers of secrets and of public integers
ContSecret == {"Seq<U8>","Seq<U32>","SecretSeq<U8>","SecretSeq<U32>","SecArr","SecWords","U32Word","Vec<U8>","[U8; 4]"}
ContPublic == {"Seq<u8>","PublicSeq<u8>","PubArr","Vec<u8>","Vec<u32>","[u8; 4]","String"}
\* what would compare, order or hash a whole container; == and != of byte sequences is the one that exists
Equality == {"eq","ne","eq_ref","eq_trait","eq_m","ne_m","contains","assert_eq","assert_ne","starts_with","position"}
Ordering == {"lt","le","gt","ge","lt_ref","ord_trait","cmp","partial_cmp","lt_m","le_m","gt_m","ge_m","max_m","min_m","clamp_m","hash","hashset","btreeset","sort","binary_search","iter_max"}
\* conversions of containers
ContConvert == {"cont_let","cont_argument","cont_into","cont_from","cont_from_ref","cont_try_into","cont_deref","cont_as_ref","cont_borrow","cont_from_seq","cont_collect","cont_eq_pub"}
\* bounds of generic code over public values, and the sequences made for them
PublicKind == {"publicseq","public_bound","unsigned_public_bound"}
Access == {"index","index_mut","index_trait"}
AccessRange == {"index_range","index_to","range_loop"}
Slices == {"subseq","subr","from_sub","from_sub_range","update_sub","num_chunks","get_chunk","new","update_start_at","set_chunk"}
Coerce == {"let","argument","as","deref","deref_let","as_ref","borrow","array_size","mix","mix_left"}
Convert == {"into","from","try_into","try_from","from_ref"}
\* methods the public integers have, and the comparison traits
Methods == {"leading_zeros","trailing_zeros","count_ones","count_zeros","leading_ones","trailing_ones","is_power_of_two","is_positive","is_negative","signum",
            "cmp","partial_cmp","eq_m","ne_m","lt_m","le_m","gt_m","ge_m","max_m","min_m","clamp_m","hash","hashset","btreeset","sort","contains","assert_eq","assert_ne",
            "checked_div","checked_rem","wrapping_div","wrapping_rem","div_euclid","rem_euclid","overflowing_add","overflowing_sub","overflowing_mul",
            "is_zero","is_one","to_usize","to_u8","to_u64","as_u8","as_usize","unsigned_abs","ilog2","abs_diff","starts_with","binary_search","position","iter_max","sum_pub"}
Explicit == {"declassify","display","debug","lowerhex"}

Pairs == (Secret \X (Secret \cup Public \cup {"f64"})) \cup ((Public \cup {"f64"}) \X Secret)
Diag(S) == {<<a, a>> : a \in S}
Whole(f) == IF f \in Equality \cup Ordering THEN Diag(ContSecret) ELSE {}
\* every program asked about, per form
Holes(f) ==
  CASE f \in Variable -> Pairs \cup (Bounded \X Bounded) \cup Whole(f)
    [] f \in VariableRef -> Whole(f) \cup Diag(SecretAll) \cup {<<a, PublicOf(a)>> : a \in Secret} \cup {<<PublicOf(a), a>> : a \in Secret}
    [] f \in Shift -> (Secret \cup PubInt \cup Bounded) \X SecretAll
    [] f \in Rotate -> (Secret \cup (PubInt \ {"usize","isize"})) \X Secret
    [] f \in Constant -> Diag(Secret)
    [] f \in ConstantPub -> Secret \X Public
    [] f \in Branch \cup Methods -> Diag(SecretAll) \cup Whole(f)
    [] f \in ContConvert -> ContSecret \X ContPublic
    [] f \in PublicKind -> Diag(SecretAll)
    [] f \in Access \cup AccessRange \cup Slices -> Containers \X (SecretAll \cup {"usize"})
    [] f \in Coerce \cup Convert -> (Secret \cup {c \in Bounded : f \in {"let","argument","as","into","from","try_into"}}) \X Public
    [] f \in Explicit -> Secret \X PubInt
\* the same terms over public types, which the compiler must accept: a refused control would mean that
\* the term itself is malformed and its refusals say nothing
Control(f) ==
  CASE f \in {"and","or"} -> {<<"bool","bool">>}
    [] f \in Branch -> {<<IF f = "match_int" THEN "u32" ELSE "bool", IF f = "match_int" THEN "u32" ELSE "bool">>}
    [] f \in {"is_positive","is_negative","signum","unsigned_abs"} -> {<<"i32","i32">>}
    [] f \in {"is_one","to_usize","to_u8","to_u64","as_u8","as_usize"} -> {}
    [] f = "sum_pub" -> {<<"u64","u64">>}
    [] f \in Variable \cup VariableRef \cup Shift \cup Methods -> {<<"u32","u32">>}
    [] f \in Rotate -> {<<"U32","u32">>}
    [] f \in ConstantPub -> {<<"U32","U32">>}
    [] f \in {"deref","as_ref","borrow"} -> {<<"Box<u8>","u8">>}
    [] f = "from_ref" -> {<<"String","String">>}
    [] f = "cont_eq_pub" -> {<<"Vec<u8>","[u8; 4]">>}
    [] f = "cont_from_seq" -> {<<"Seq<u8>","PublicSeq<u8>">>, <<"PubArr","PublicSeq<u8>">>}
    [] f = "cont_collect" -> {<<"Seq<u8>","Vec<u8>">>, <<"PubArr","Vec<u8>">>}
    [] f \in {"cont_deref","cont_as_ref","cont_borrow"} -> {<<"Box<String>","String">>}
    [] f = "cont_from_ref" -> {<<"str","String">>}
    [] f \in ContConvert -> {<<"Vec<u8>","Vec<u8>">>}
    [] f = "unsigned_public_bound" -> Diag({"u8","u16","u32","u64","u128"})
    [] f \in PublicKind -> Diag({"i8","i16","i32","i64","i128","u8","u16","u32","u64","u128"})
    [] f \in Coerce -> {<<"u32","u32">>}
    [] f \in Convert -> {<<"u8","u32">>}
    [] f \in AccessRange \ {"range_loop"} -> {<<"Vec<u8>","usize">>}
    [] f = "range_loop" -> Containers \X {"usize"}
    [] f = "new" -> {<<"Seq<u8>","usize">>}
    [] f \in Slices -> {"Seq<u8>","Seq<U8>","SecArr","PubArr"} \X {"usize"}
    [] OTHER -> {}
Forms == Variable \cup VariableRef \cup Shift \cup Rotate \cup Constant \cup ConstantPub \cup Branch \cup Access \cup AccessRange \cup Slices
         \cup Coerce \cup Convert \cup Methods \cup Explicit \cup ContConvert \cup PublicKind

Verdict(f, a, b) ==
  CASE <<a, b>> \in Control(f) -> "yes"
    [] a \in {"Seq<U8>"} /\ f \in Equality -> "any"
    [] f \in ContConvert \cup PublicKind -> "no"
    [] f \in Variable \cup VariableRef \cup Shift \cup Rotate \cup ConstantPub \cup Branch \cup Coerce \cup Methods -> "no"
    [] f \in Constant -> "yes"
    [] f \in Access -> IF b = "usize" THEN "yes" ELSE "no"
    [] f \in AccessRange \cup Slices -> IF b = "usize" THEN "any" ELSE "no"
    [] f = "from_ref" -> "no"
    [] f \in Convert -> IF Widens(a, b) THEN (IF f \in {"into","from"} THEN "yes" ELSE "any") ELSE "no"
    [] f \in {"display","debug","lowerhex"} -> "yes"
    [] f = "declassify" -> IF b = PublicOf(a) THEN "yes" ELSE "no"
=============================================================================
