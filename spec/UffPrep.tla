------------------------------ MODULE UffPrep -------------------------------
(* The prepare_* functions: their arguments, what every argument accepts, and *)
(* the dictionary they return.                                                *)
(*                                                                           *)
(* An argument is <<name, kind>> or <<name, "enum"|"enums", members, free>>;   *)
(* a value is seen through its class (how it is given) and its tagged value.  *)
EXTENDS UffTypes

In(n, k) == <<n, k, {}, {}>>
En(n, s) == <<n, "enum", s, {}>>
ArgsOf(ns, k) == [i \in 1..Len(ns) |-> In(ns[i], k)]
Upto(n) == 0..n

Unit(a) == ArgsOf(<<a \o "_len_unit_exp", a \o "_force_unit_exp", a \o "_temp_unit_exp">>, "int")
             \o <<In(a \o "_axis_units_lab", "str"), En(a \o "_spec_data_type", Upto(20))>>
IdArgs == ArgsOf(<<"id1", "id2", "id3", "id4", "id5">>, "str")
GroupNos == <<"active_constraint_set_no_for_group", "active_restraint_set_no_for_group", "active_load_set_no_for_group",
              "active_dof_set_no_for_group", "active_temperature_set_no_for_group", "active_contact_set_no_for_group">>

Args(fn) ==
    CASE fn = "15" -> <<In("node_nums", "ints")>> \o ArgsOf(<<"def_cs", "disp_cs", "color">>, "int") \o ArgsOf(<<"x", "y", "z">>, "flt")
      [] fn = "18" -> ArgsOf(<<"cs_num", "cs_type", "ref_cs_num", "color", "method">>, "real") \o <<In("cs_name", "names")>>
                      \o ArgsOf(<<"ref_o", "x_point", "xz_point">>, "real")
      [] fn = "55" -> IdArgs \o <<En("model_type", 0..3), En("analysis_type", {2, 3, 5, 7}), <<"data_ch", "enum", {0, 1, 2, 4, 5}, {3}>>,
                        En("spec_data_type", 0..18), En("data_type", {2, 5}), In("n_data_per_node", "int")>>
                      \o ArgsOf(<<"r1", "r2", "r3", "r4", "r5", "r6", "eig", "modal_a", "modal_b">>, "num")
                      \o ArgsOf(<<"load_case", "mode_n", "freq_step_n">>, "Int") \o ArgsOf(<<"modal_damp_vis", "modal_damp_his">>, "Flt")
                      \o <<In("freq", "flt"), In("modal_m", "any"), In("node_nums", "int")>>
      [] fn = "58" -> <<En("binary", {0, 1})>> \o IdArgs \o <<En("func_type", 0..27)>>
                      \o ArgsOf(<<"ver_num", "load_case_id", "rsp_node", "ref_node", "num_pts">>, "int")
                      \o ArgsOf(<<"rsp_ent_name", "ref_ent_name">>, "str") \o <<En("rsp_dir", -6..6), En("ref_dir", -6..6),
                        En("ord_data_type", {2, 4, 5, 6}), En("abscissa_spacing", {0, 1})>>
                      \o ArgsOf(<<"abscissa_min", "abscissa_inc", "z_axis_value">>, "flt")
                      \o Unit("abscissa") \o Unit("ordinate") \o Unit("orddenom") \o Unit("z_axis")
                      \o <<In("data", "cplx")>> \o ArgsOf(<<"x", "spec_data_type", "byte_ordering", "fp_format", "n_ascii_lines", "n_bytes">>, "any")
      [] fn = "82" -> ArgsOf(<<"trace_num", "n_nodes", "color", "nodes">>, "int") \o <<In("id", "str")>>
      [] fn = "151" -> ArgsOf(<<"model_name", "description", "db_app", "date_db_created", "time_db_created", "date_db_saved", "time_db_saved",
                        "program", "date_db_written", "time_db_written">>, "str")
                       \o ArgsOf(<<"version_db1", "version_db2">>, "int") \o <<En("file_type", {0, 1, 2})>>
      [] fn = "164" -> <<<<"units_code", "enum", 1..9, {0}>>, In("units_description", "str"), En("temp_mode", {1, 2})>>
                       \o ArgsOf(<<"length", "force", "temp", "temp_offset">>, "Flt")
      [] fn = "1858" -> ArgsOf(<<"record_num", "octave_format", "measurement_run", "weighting_type", "window_type", "amplitude_units",
                          "normalization_method", "abscissa_data_type_qualifier", "ordinate_numerator_data_type_qualifier",
                          "ordinate_denominator_data_type_qualifier", "z_axis_data_type_qualifier", "sampling_type">>, "int")
                        \o ArgsOf(<<"z_rpm_value", "z_time_value", "z_order_value", "num_of_samples", "user_value_1", "user_value_2",
                             "user_value_3", "user_value_4", "exponential_window_damping_factor">>, "flt")
                        \o ArgsOf(<<"response_direction", "reference_direction">>, "str")
      [] fn = "2400" -> ArgsOf(<<"model_uid", "entity_type", "entity_subtype", "version_number", "idm_version_id", "idm_item_id",
                          "primary_parent_uid", "optimization_switches">>, "int")
                        \o ArgsOf(<<"entity_name", "part_number", "date", "time">>, "str") \o <<In("status_mask", "mask")>>
      [] fn = "2411" -> ArgsOf(<<"node_nums", "def_cs", "disp_cs", "color">>, "int") \o ArgsOf(<<"x", "y", "z">>, "flt")
      [] fn = "2412" -> ArgsOf(<<"element_nums", "fe_descriptor", "phys_table", "mat_table", "color", "num_nodes", "nodes_nums",
                          "beam_orientation", "beam_foreend_cross", "beam_aftend_cross">>, "int")
      [] fn = "2414" -> IdArgs \o ArgsOf(<<"analysis_dataset_label", "number_of_data_values_for_the_data_component", "design_set_id",
                          "iteration_number", "solution_set_id", "boundary_condition", "load_set", "mode_number", "time_step_number",
                          "frequency_number", "creation_option", "number_retained", "node_nums">>, "int")
                        \o ArgsOf(<<"time", "frequency", "eigenvalue", "modal_mass", "viscous_damping", "hysteretic_damping",
                             "real_part_eigenvalue", "imaginary_part_eigenvalue", "real_part_of_modal_A_or_modal_mass",
                             "imaginary_part_of_modal_A_or_modal_mass", "real_part_of_modal_B_or_modal_mass",
                             "imaginary_part_of_modal_B_or_modal_mass">>, "flt")
                        \o <<In("d", "fltc")>>
                        \o ArgsOf(<<"x", "y", "z">>, "cplx") \o <<In("analysis_dataset_name", "str"), In("result_type", "Int"),
                          En("dataset_location", {1, 2, 3, 5}), En("model_type", 0..3), En("analysis_type", {0, 1, 2, 3, 4, 5, 6, 7, 9}),
                          En("data_characteristic", {0, 1, 2, 3, 4, 6}), En("data_type", {1, 2, 4, 5, 6})>>
      [] fn = "2420" -> ArgsOf(<<"Part_UID", "CS_sys_labels", "CS_colors">>, "int") \o <<In("Part_Name", "str"),
                          <<"CS_types", "enums", {0, 1, 2}, {}>>, In("CS_names", "names"), In("CS_matrices", "flt")>>
      [] fn \in {"2429", "2467"} -> <<In("groups", "groups")>>
      [] fn = "group2429" -> ArgsOf(<<"group_number">> \o GroupNos, "pos") \o <<In("group_name", "name")>>
                             \o ArgsOf(<<"entity_type_code", "entity_tag">>, "int")
      [] fn = "group2467" -> ArgsOf(<<"group_number">> \o GroupNos, "pos") \o <<In("group_name", "name")>>
                             \o ArgsOf(<<"entity_type_code", "entity_tag", "entity_node_leaf_id", "entity_component_id">>, "int")
Fns == Supported \cup {"group2429", "group2467"}
IsGroup(fn) == fn \in {"group2429", "group2467"}
ArgNames(fn) == {Args(fn)[i][1] : i \in 1..Len(Args(fn))}
(* arguments without a default value, and the other default values *)
MustGive(fn) == IF IsGroup(fn) THEN ArgNames(fn) \ ToSet(GroupNos) ELSE IF fn \in {"2429", "2467"} THEN {"groups"} ELSE {}
Filled0(fn) == IF IsGroup(fn) THEN ToSet(GroupNos) ELSE {}

(* ------------------------------ acceptance ------------------------------- *)
(* scalars, lists and arrays of integers, floats, complex numbers; texts, ... *)
Classes == {"int", "ints", "aint", "flt", "flts", "aflt", "cplx", "acplx", "str", "strs", "dict",
            "npint", "npflt", "mask", "amask", "groups", "badgroups", "neg", "empty",
            "noints", "noflts"} \* the last two: arrays of no values
Scalars == {"int", "flt", "cplx", "npint", "npflt", "neg"}
IsInt(c) == c \in {"int", "ints", "aint", "npint", "mask", "amask", "neg"}
IsFlt(c) == c \in {"flt", "flts", "aflt", "npflt"}
IsCpx(c) == c \in {"cplx", "acplx"}
IsText(c) == c \in {"str", "empty"}
YesNo(b) == IF b THEN "yes" ELSE "no"
Members(v) == IF v[1] = "n" THEN {v[2]} ELSE IF v[1] = "N" THEN ToSet(v[2]) ELSE {"?"}
Nums(s) == {IntNum(n) : n \in s}
(* does argument a accept a value v of class c: "yes", "no" or "free" (not settled) *)
Accepts(a, c, v) ==
    LET k == a[2] IN
    CASE c = "noints" -> IF k \in {"int", "ints", "real", "num"} THEN "yes" ELSE "free"
      [] c = "noflts" -> IF k \in {"flt", "real", "num", "cplx"} THEN "yes" ELSE "free"
      [] k = "int" -> YesNo(IsInt(c))
      [] k = "ints" -> IF c \in {"int", "npint", "neg"} THEN "no" ELSE YesNo(IsInt(c))
      [] k = "Int" -> IF c = "npint" THEN "free" ELSE YesNo(c \in {"int", "neg"})
      [] k = "flt" -> YesNo(IsFlt(c))
      [] k = "fltc" -> IF IsCpx(c) THEN "free" ELSE YesNo(IsFlt(c))
      [] k = "Flt" -> IF c = "npflt" THEN "free" ELSE YesNo(c = "flt")
      [] k = "real" -> YesNo(IsInt(c) \/ IsFlt(c))
      [] k = "num" -> YesNo(IsInt(c) \/ IsFlt(c) \/ IsCpx(c))
      [] k = "cplx" -> YesNo(IsFlt(c) \/ IsCpx(c))
      [] k = "str" -> YesNo(IsText(c))
      [] k = "names" -> IF IsText(c) THEN "free" ELSE YesNo(c = "strs")
      [] k = "enum" -> IF ~(c \in {"int", "npint", "neg"}) THEN "no"
                       ELSE IF Members(v) \subseteq Nums(a[3]) THEN "yes" ELSE IF Members(v) \subseteq Nums(a[4]) THEN "free" ELSE "no"
      [] k = "enums" -> IF ~IsInt(c) THEN "no" ELSE IF c \in {"int", "npint", "neg"} THEN "free" ELSE YesNo(Members(v) \subseteq Nums(a[3]))
      [] k = "mask" -> YesNo(c \in {"mask", "amask"})
      [] k = "groups" -> YesNo(c = "groups")
      [] k = "pos" -> IF c = "npint" THEN "free" ELSE YesNo(c = "int")
      [] k = "name" -> YesNo(c = "str")
      [] k = "any" -> IF c \in {"dict", "groups", "badgroups"} THEN "free" ELSE "yes"

(* ------------------------------- judgement ------------------------------- *)
(* ev: fn, full, given: [name -> <<class, value>>], err, ret: [key -> value],  *)
(* none: keys with None, mut: arguments changed                               *)
PrepFails(ev) ==
    LET as == Args(ev.fn)
        at == {i \in 1..Len(as) : as[i][1] \in DOMAIN ev.given}
        names == {as[i][1] : i \in 1..Len(as)}
        judged(w) == {as[i][1] : i \in {i \in at : Accepts(as[i], ev.given[as[i][1]][1], ev.given[as[i][1]][2]) = w}}
        no == judged("no")
        free == judged("free")
        lack == MustGive(ev.fn) \ DOMAIN ev.given
        fill == Filled0(ev.fn) \ DOMAIN ev.given
        typ == IF IsGroup(ev.fn) THEN {} ELSE {"type"}
        keys == DOMAIN ev.given \cup fill \cup typ
    IN {"prep:modified:" \o ev.mut[i] : i \in 1..Len(ev.mut)} \cup
       IF ev.err # "" THEN (IF no = {} /\ lack = {} /\ free = {} THEN {"prep:refused"} ELSE {})
       ELSE IF no # {} \/ lack # {} THEN {"prep:accepted:" \o n : n \in no \cup lack}
       ELSE {"prep:value:" \o n : n \in {n \in DOMAIN ev.given : ~(n \in DOMAIN ev.ret /\ ev.ret[n] = ev.given[n][2])}}
            \cup {"prep:value:" \o n : n \in {n \in fill : ~(n \in DOMAIN ev.ret /\ ev.ret[n] = N0)}}
            \cup (IF typ # {} /\ TypeOf(ev.ret) # ev.fn THEN {"prep:type"} ELSE {})
            \cup (IF ev.full
                  THEN (IF DOMAIN ev.ret = keys THEN {} ELSE {"prep:keys"})
                       \cup (IF ToSet(ev.none) = (names \ DOMAIN ev.given) \ fill THEN {} ELSE {"prep:none"})
                  ELSE (IF DOMAIN ev.ret = keys THEN {} ELSE {"prep:keys"}) \cup (IF ev.none = <<>> THEN {} ELSE {"prep:none"}))
=============================================================================
