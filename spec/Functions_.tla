----------------------------- MODULE Functions_ -----------------------------
(***************************************************************************)
(* The functions which plugins provide, by plugin: the parameters they     *)
(* take, whether more arguments may follow, and the kind of their result.  *)
(*                                                                         *)
(*   p: "con" (content), "str" (text), "node" (syntax), or a Go type which *)
(*      is not supported                                                   *)
(*   v: "" or the type of the variadic parameter                           *)
(*   o: "" | "c" | "e" | "ce" | or a description of an unsupported result  *)
(*                                                                         *)
(* "base" is baselit; "tp" and "tq" are the plugins of the test harness,   *)
(* which share some names; "chroma" highlights code, and is used for that  *)
(* by the function highlight of "tp".                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Sig(p, v, o) == [p |-> p, v |-> v, o |-> o]
C == <<"con">>
S == <<"str">>

BaseFns == [
  use_plugin |-> Sig(S, "", "e"),
  styled |-> Sig(S, "", ""),
  title |-> Sig(C, "str", "e"),
  aux |-> Sig(C, "", "c"),
  section |-> Sig(<<"node">>, "", "e"),
  include_section |-> Sig(S, "", "e"),
  single_page |-> Sig(<<>>, "", ""),
  split_sections |-> Sig(<<>>, "", ""),
  omit_children_from_table_of_contents |-> Sig(<<>>, "", ""),
  table_of_contents |-> Sig(<<>>, "", "c"),
  code |-> Sig(C, "", "c"),
  italic |-> Sig(C, "", "c"),
  bold |-> Sig(C, "", "c"),
  larger |-> Sig(C, "", "c"),
  smaller |-> Sig(C, "", "c"),
  strike |-> Sig(C, "", "c"),
  superscript |-> Sig(C, "", "c"),
  subscript |-> Sig(C, "", "c"),
  inset |-> Sig(C, "", "c"),
  aside |-> Sig(C, "", "c"),
  link |-> Sig(<<"con", "str">>, "", "c"),
  reference |-> Sig(S, "con", "c"),
  target |-> Sig(S, "con", "c"),
  list |-> Sig(<<>>, "con", "c"),
  ordered_list |-> Sig(<<>>, "con", "c"),
  image |-> Sig(S, "str", "c"),
  set_partial |-> Sig(<<"str", "con">>, "", ""),
  table |-> Sig(<<>>, "con", "ce"),
  table_row |-> Sig(<<>>, "con", "c"),
  definitions |-> Sig(<<>>, "con", "ce"),
  definition |-> Sig(<<"con", "con">>, "", "c")
]

TpFns == [
  echo |-> Sig(C, "", "c"),
  text |-> Sig(S, "", "c"),
  nothing |-> Sig(<<>>, "", ""),
  note |-> Sig(S, "", ""),
  nil_content |-> Sig(<<>>, "", "c"),
  nil_both |-> Sig(<<>>, "", "ce"),
  fine |-> Sig(C, "", "ce"),
  no_error |-> Sig(S, "", "e"),
  fail |-> Sig(S, "", "e"),
  fail_both |-> Sig(S, "", "ce"),
  fail_pretty |-> Sig(S, "", "e"),
  fail_pretty_both |-> Sig(S, "", "ce"),
  pair |-> Sig(<<"con", "con">>, "", "c"),
  three |-> Sig(<<"con", "str", "con">>, "", "c"),
  join |-> Sig(S, "con", "c"),
  strs |-> Sig(S, "str", "c"),
  gather |-> Sig(<<>>, "con", "c"),
  raw |-> Sig(<<"node">>, "", "c"),
  raws |-> Sig(S, "node", "c"),
  block |-> Sig(C, "", "c"),
  para |-> Sig(C, "", "c"),
  lines |-> Sig(<<>>, "con", "c"),
  dup |-> Sig(C, "", "c"),
  remember |-> Sig(<<"str", "con">>, "", ""),
  recall |-> Sig(S, "", "c"),
  extend |-> Sig(<<"str", "con">>, "", "c"),
  style |-> Sig(<<"str", "con">>, "", "c"),
  style_with |-> Sig(<<"str", "con", "str", "con">>, "", "c"),
  optional |-> Sig(<<"str", "con">>, "", "c"),
  lazy |-> Sig(C, "", "c"),
  lazy_block |-> Sig(C, "", "c"),
  lazy_nil |-> Sig(<<>>, "", "c"),
  lazy_fail |-> Sig(S, "", "c"),
  gate |-> Sig(S, "", ""),
  lazy_gate |-> Sig(S, "", "c"),
  bad_arg |-> Sig(<<"str", "int">>, "", "c"),
  bad_variadic |-> Sig(S, "int", "c"),
  bad_result |-> Sig(S, "", "unknown return type: int"),
  bad_first |-> Sig(S, "", "unknown first return type: int"),
  bad_second |-> Sig(S, "", "unknown second return type: int"),
  bad_count |-> Sig(S, "", "expected 0-2 return values from bad-count, got 3"),
  a_b_c |-> Sig(<<>>, "", "c"),
  highlight |-> Sig(<<"str", "con">>, "", "ce")
]

TqFns == [
  echo |-> Sig(C, "", "c"),
  text |-> Sig(S, "str", "c"),
  only_q |-> Sig(S, "", "c"),
  bold |-> Sig(S, "", "c")
]

\* highlighting of code; a plugin of its own
ChromaFns == [syntax |-> Sig(<<"str", "con">>, "str", "ce")]

Fns(plugin) == CASE plugin = "base" -> BaseFns [] plugin = "tp" -> TpFns [] plugin = "tq" -> TqFns
                 [] plugin = "chroma" -> ChromaFns
KnownPlugins == {"baselit", "tp", "tq", "chroma"}
PluginId(name) == IF name = "baselit" THEN "base" ELSE name
=============================================================================
