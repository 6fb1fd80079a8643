----------------------------- MODULE DwarfNames -----------------------------
(* Numbers and names of the DWARF standard (version 5, chapter 7.5 and 7.7).   *)
(* "" stands for numbers without a name here.                                  *)
EXTENDS Sequences, Integers, TLC

TagSeq == <<"array_type", "class_type", "entry_point", "enumeration_type", "formal_parameter", "", "", "imported_declaration", "", "label", "lexical_block", "",
  "member", "", "pointer_type", "reference_type", "compile_unit", "string_type", "structure_type", "", "subroutine_type", "typedef", "union_type",
  "unspecified_parameters", "variant", "common_block", "common_inclusion", "inheritance", "inlined_subroutine", "module", "ptr_to_member_type", "set_type",
  "subrange_type", "with_stmt", "access_declaration", "base_type", "catch_block", "const_type", "constant", "enumerator", "file_type", "friend", "namelist",
  "namelist_item", "packed_type", "subprogram", "template_type_param", "template_value_param", "thrown_type", "try_block", "variant_part", "variable",
  "volatile_type", "dwarf_procedure", "restrict_type", "interface_type", "namespace", "imported_module", "unspecified_type", "partial_unit", "imported_unit", "",
  "condition", "shared_type", "type_unit", "rvalue_reference_type", "template_alias">>
TagName(n) == IF n >= 1 /\ n <= Len(TagSeq) THEN TagSeq[n] ELSE CASE n = 16649 -> "GNU_call_site" [] n = 16650 -> "GNU_call_site_parameter" [] OTHER -> ""

AtSeq == <<"sibling", "location", "name", "", "", "", "", "", "ordering", "", "byte_size", "bit_offset", "bit_size", "", "", "stmt_list", "low_pc", "high_pc", "language",
  "", "discr", "discr_value", "visibility", "import_", "string_length", "common_reference", "comp_dir", "const_value", "containing_type", "default_value", "",
  "inline", "is_optional", "lower_bound", "", "", "producer", "", "prototyped", "", "", "return_addr", "", "start_scope", "", "bit_stride", "upper_bound", "",
  "abstract_origin", "accessibility", "address_class", "artificial", "base_types", "calling_convention", "count", "data_member_location", "decl_column", "decl_file",
  "decl_line", "declaration", "discr_list", "encoding", "external", "frame_base", "friend", "identifier_case", "macro_info", "namelist_item", "priority", "segment",
  "specification", "static_link", "type", "use_location", "variable_parameter", "virtuality", "vtable_elem_location", "allocated", "associated", "data_location",
  "byte_stride", "entry_pc", "use_UTF8", "extension", "ranges", "trampoline", "call_column", "call_file", "call_line", "description", "binary_scale", "decimal_scale",
  "small", "decimal_sign", "digit_count", "picture_string", "mutable", "threads_scaled", "explicit", "object_pointer", "endianity", "elemental", "pure", "recursive",
  "signature", "main_subprogram", "data_bit_offset", "const_expr", "enum_class", "linkage_name", "string_length_bit_size", "string_length_byte_size", "rank">>
AtName(n) == IF n >= 1 /\ n <= Len(AtSeq) THEN AtSeq[n]
             ELSE CASE n = 135 -> "noreturn" [] n = 136 -> "alignment" [] n = 137 -> "export_symbols" [] n = 138 -> "deleted" [] n = 139 -> "defaulted"
                    [] n = 125 -> "call_return_pc" [] n = 126 -> "call_value" [] n = 127 -> "call_origin" [] n = 122 -> "call_all_calls" [] n = 130 -> "call_tail_call"
                    [] n = 131 -> "call_target" [] n = 8465 -> "GNU_call_site_value" [] n = 8467 -> "GNU_call_site_target" [] n = 8471 -> "GNU_all_call_sites" [] OTHER -> ""

\* the attributes whose values are enumerations: names by attribute name and value
Languages == <<"C89", "C", "Ada83", "C_plus_plus", "Cobol74", "Cobol85", "Fortran77", "Fortran90", "Pascal83", "Modula2", "Java", "C99", "Ada95", "Fortran95", "PLI", "ObjC",
  "ObjC_plus_plus", "UPC", "D", "Python", "OpenCL", "Go", "Modula3", "Haskell", "C_plus_plus_03", "C_plus_plus_11", "OCaml", "Rust", "C11", "Swift", "Julia", "Dylan",
  "C_plus_plus_14", "Fortran03", "Fortran08", "RenderScript", "BLISS">>
Encodings == <<"address", "boolean", "complex_float", "float", "signed", "signed_char", "unsigned", "unsigned_char", "imaginary_float", "packed_decimal", "numeric_string",
  "edited", "signed_fixed", "unsigned_fixed", "decimal_float", "UTF">>
Enum1(at) == CASE at = "language" -> Languages [] at = "encoding" -> Encodings [] at = "accessibility" -> <<"public", "protected", "private">>
               [] at = "visibility" -> <<"local", "exported", "qualified">> [] at = "calling_convention" -> <<"normal", "program", "nocall">>
               [] at = "decimal_sign" -> <<"unsigned", "leading_overpunch", "trailing_overpunch", "leading_separate", "trailing_separate">>
               [] at = "virtuality" -> <<"virtual", "pure_virtual">> [] at = "inline" -> <<"inlined", "declared_not_inlined", "declared_inlined">>
               [] at = "ordering" -> <<"col_major">> [] at = "endianity" -> <<"big", "little">> [] at = "identifier_case" -> <<"up_case", "down_case", "case_insensitive">>
               [] OTHER -> <<>>
Enum0(at) == CASE at = "virtuality" -> "none" [] at = "inline" -> "not_inlined" [] at = "ordering" -> "row_major" [] at = "endianity" -> "default"
               [] at = "identifier_case" -> "case_sensitive" [] OTHER -> ""
EnumName(at, v) == IF v = 0 THEN Enum0(at) ELSE IF v <= Len(Enum1(at)) THEN Enum1(at)[v] ELSE ""

(* Operations of location expressions: number -> name and operands.            *)
Op(n, a) == [name |-> n, args |-> a]
OpTable(o) ==
  CASE o = 3 -> Op("addr", <<"addr">>) [] o = 6 -> Op("deref", <<>>)
    [] o = 8 -> Op("const1u", <<"u1">>) [] o = 9 -> Op("const1s", <<"s1">>) [] o = 10 -> Op("const2u", <<"u2">>) [] o = 11 -> Op("const2s", <<"s2">>)
    [] o = 12 -> Op("const4u", <<"u4">>) [] o = 13 -> Op("const4s", <<"s4">>) [] o = 14 -> Op("const8u", <<"u8">>) [] o = 15 -> Op("const8s", <<"s8">>)
    [] o = 16 -> Op("constu", <<"uleb">>) [] o = 17 -> Op("consts", <<"sleb">>) [] o = 18 -> Op("dup", <<>>) [] o = 19 -> Op("drop", <<>>) [] o = 20 -> Op("over", <<>>)
    [] o = 21 -> Op("pick", <<"u1">>) [] o = 22 -> Op("swap", <<>>) [] o = 23 -> Op("rot", <<>>) [] o = 24 -> Op("xderef", <<>>) [] o = 25 -> Op("abs", <<>>)
    [] o = 26 -> Op("and_", <<>>) [] o = 27 -> Op("div", <<>>) [] o = 28 -> Op("minus", <<>>) [] o = 29 -> Op("mod", <<>>) [] o = 30 -> Op("mul", <<>>)
    [] o = 31 -> Op("neg", <<>>) [] o = 32 -> Op("not_", <<>>) [] o = 33 -> Op("or_", <<>>) [] o = 34 -> Op("plus", <<>>) [] o = 35 -> Op("plus_uconst", <<"uleb">>)
    [] o = 36 -> Op("shl", <<>>) [] o = 37 -> Op("shr", <<>>) [] o = 38 -> Op("shra", <<>>) [] o = 39 -> Op("xor", <<>>) [] o = 40 -> Op("bra", <<"s2">>)
    [] o = 41 -> Op("eq", <<>>) [] o = 42 -> Op("ge", <<>>) [] o = 43 -> Op("gt", <<>>) [] o = 44 -> Op("le", <<>>) [] o = 45 -> Op("lt", <<>>) [] o = 46 -> Op("ne", <<>>)
    [] o = 47 -> Op("skip", <<"s2">>)
    [] o >= 48 /\ o <= 79 -> Op("lit" \o ToString(o - 48), <<>>) [] o >= 80 /\ o <= 111 -> Op("reg" \o ToString(o - 80), <<>>)
    [] o >= 112 /\ o <= 143 -> Op("breg" \o ToString(o - 112), <<"sleb">>)
    [] o = 144 -> Op("regx", <<"uleb">>) [] o = 145 -> Op("fbreg", <<"sleb">>) [] o = 146 -> Op("bregx", <<"uleb", "sleb">>) [] o = 147 -> Op("piece", <<"uleb">>)
    [] o = 148 -> Op("deref_size", <<"u1">>) [] o = 149 -> Op("xderef_size", <<"u1">>) [] o = 150 -> Op("nop", <<>>) [] o = 151 -> Op("push_object_address", <<>>)
    [] o = 152 -> Op("call2", <<"u2">>) [] o = 153 -> Op("call4", <<"u4">>) [] o = 154 -> Op("call_ref", <<"u4">>) [] o = 155 -> Op("form_tls_address", <<>>)
    [] o = 156 -> Op("call_frame_cfa", <<>>) [] o = 157 -> Op("bit_piece", <<"uleb", "uleb">>) [] o = 158 -> Op("implicit_value", <<"uleb", "block">>)
    [] o = 159 -> Op("stack_value", <<>>) [] o = 160 -> Op("implicit_pointer", <<"u4", "sleb">>) [] o = 161 -> Op("addrx", <<"uleb">>) [] o = 162 -> Op("constx", <<"uleb">>)
    [] o = 163 -> Op("entry_value", <<"uleb", "block">>) [] o = 164 -> Op("const_type", <<"uleb", "u1", "block">>) [] o = 165 -> Op("regval_type", <<"uleb", "uleb">>)
    [] o = 166 -> Op("deref_type", <<"u1", "uleb">>) [] o = 167 -> Op("xderef_type", <<"u1", "uleb">>) [] o = 168 -> Op("convert", <<"uleb">>) [] o = 169 -> Op("reinterpret", <<"uleb">>)
    [] o = 240 -> Op("GNU_uninit", <<>>) [] o = 242 -> Op("GNU_implicit_pointer", <<"u4", "sleb">>) [] o = 243 -> Op("GNU_entry_value", <<"uleb", "block">>)
    [] o = 244 -> Op("GNU_const_type", <<"uleb", "u1", "block">>) [] o = 245 -> Op("GNU_regval_type", <<"uleb", "uleb">>) [] o = 246 -> Op("GNU_deref_type", <<"u1", "uleb">>)
    [] o = 247 -> Op("GNU_convert", <<"uleb">>) [] o = 249 -> Op("GNU_reinterpret", <<"uleb">>) [] o = 250 -> Op("GNU_parameter_ref", <<"u4">>)
    [] o = 251 -> Op("GNU_addr_index", <<"uleb">>) [] o = 252 -> Op("GNU_const_index", <<"uleb">>) [] OTHER -> Op("", <<>>)
=============================================================================
