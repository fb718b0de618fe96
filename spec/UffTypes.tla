------------------------------ MODULE UffTypes ------------------------------
(* The data-set types: required fields, defaults, records of a block, and    *)
(* what a reader returns for a block.  A data-set is a function from field    *)
(* names to tagged values; names starting with "$" are harness annotations    *)
(* (results of floating-point arithmetic TLA+ does not do).                   *)
EXTENDS UffRecords

Has(d, k) == k \in DOMAIN d
Val(d, k) == d[k][2]
Tag(d, k) == d[k][1]
TypeOf(d) == IF Has(d, "type") /\ Tag(d, "type") = "n" THEN IntText(Val(d, "type")) ELSE "none"

Supported == {"15", "18", "55", "58", "82", "151", "164", "1858", "2400", "2411", "2412", "2414",
              "2420", "2429", "2467"}

NV(n) == <<"n", IntNum(n)>>
Txt(s) == <<"t", s>>
N0 == NV(0)
Rod == {"11", "21", "22", "23", "24"}

IsCplx(x) == x[1] \in {"C", "c"}

(* ------------------------------ required fields ------------------------- *)
(* those whose absence must be reported by name, and the others *)
Required(d, fd) ==
    LET t == TypeOf(d)
        AT(n) == Has(d, "analysis_type") /\ Val(d, "analysis_type") = IntNum(n)
    IN CASE t = "15" -> {"node_nums", "x", "y", "z"}
         [] t = "18" -> {"cs_num", "ref_cs_num", "ref_o", "x_point", "xz_point"}
         [] t = "55" -> {"analysis_type", "data_ch", "spec_data_type", "load_case", "node_nums", "r1", "r2", "r3"}
                        \cup (IF AT(2) \/ AT(3) \/ AT(7) THEN {"mode_n"} ELSE {})
                        \cup (IF AT(2) \/ AT(5) THEN {"freq"} ELSE {})
                        \cup (IF AT(5) THEN {"freq_step_n"} ELSE {})
                        \cup (IF AT(3) \/ AT(7) THEN {"eig"} ELSE {})
         [] t = "58" -> {"func_type", "rsp_node", "rsp_dir", "ref_node", "ref_dir", "data", "x",
                         "orddenom_spec_data_type"} \cup (IF fd THEN {} ELSE {"ord_data_type"})
         [] t = "82" -> {"trace_num", "nodes"}
         [] t = "151" -> {"model_name", "description", "db_app", "program"}
         [] t = "164" -> {"units_code", "length", "force", "temp", "temp_offset"}
         [] t = "1858" -> {"record_num", "octave_format", "measurement_run", "weighting_type", "window_type",
                           "amplitude_units", "normalization_method", "abscissa_data_type_qualifier",
                           "ordinate_numerator_data_type_qualifier", "ordinate_denominator_data_type_qualifier",
                           "z_axis_data_type_qualifier", "sampling_type", "z_rpm_value", "z_time_value",
                           "z_order_value", "num_of_samples", "user_value_1", "user_value_2", "user_value_3",
                           "user_value_4", "exponential_window_damping_factor", "response_direction",
                           "reference_direction"}
         [] t = "2411" -> {"node_nums", "def_cs", "disp_cs", "color", "x", "y", "z"}
         [] t = "2414" -> {"analysis_dataset_label", "analysis_dataset_name", "dataset_location", "id1", "id2",
                           "id3", "id4", "id5", "model_type", "analysis_type", "data_characteristic",
                           "result_type", "data_type", "number_of_data_values_for_the_data_component"}
                          \cup (IF AT(5) THEN
                                {"design_set_id", "iteration_number", "solution_set_id", "boundary_condition",
                                 "load_set", "mode_number", "time_step_number", "frequency_number",
                                 "creation_option", "number_retained", "time", "frequency", "eigenvalue",
                                 "modal_mass", "viscous_damping", "hysteretic_damping",
                                 "real_part_eigenvalue", "imaginary_part_eigenvalue",
                                 "real_part_of_modal_A_or_modal_mass", "imaginary_part_of_modal_A_or_modal_mass",
                                 "real_part_of_modal_B_or_modal_mass", "imaginary_part_of_modal_B_or_modal_mass",
                                 "node_nums"}
                                ELSE IF ~Has(d, "dataset_location") THEN {}
                                ELSE IF Val(d, "dataset_location") = IntNum(1) THEN {"node_nums", "data_at_node"}
                                ELSE IF Val(d, "dataset_location") = IntNum(2) THEN {"element_nums", "data_at_element"}
                                ELSE IF Val(d, "dataset_location") = IntNum(3) THEN
                                     {"element_nums", "IEXP", "number_of_nodes", "number_of_values_per_node",
                                      "data_at_nodes_on_element"}
                                ELSE {})
                          \cup (IF AT(5) /\ Has(d, "number_of_data_values_for_the_data_component") THEN
                                LET m == Val(d, "number_of_data_values_for_the_data_component")
                                IN IF m = IntNum(1) THEN {"x"} ELSE IF m = IntNum(2) THEN {"x", "y"}
                                   ELSE {"x", "y", "z"}
                                ELSE {})
         [] t = "2420" -> {"CS_sys_labels", "CS_names", "CS_matrices"}
         [] t = "2467" -> {"groups"}
         [] OTHER -> {}
GroupRequired(t) == IF t = "2467" THEN {"group_number", "group_name", "entity_type_code", "entity_tag",
                                        "entity_node_leaf_id", "entity_component_id"}
                    ELSE {"group_number", "group_name", "entity_type_code", "entity_tag"}
ElemRequired(e) == {"element_nums", "fe_descriptor", "phys_table", "mat_table", "color", "num_nodes", "nodes_nums"}
                   \cup (IF Has(e, "fe_descriptor") /\ IntText(Val(e, "fe_descriptor")) \in Rod
                         THEN {"beam_orientation", "beam_foreend_cross", "beam_aftend_cross"} ELSE {})
Groups(d) == IF Has(d, "groups") THEN Val(d, "groups") ELSE <<d>>
Elems(d) == Val(d, "$elems")

Missing(d, fd) ==
    (Required(d, fd) \ DOMAIN d) \cup
    (IF TypeOf(d) \in {"2429", "2467"} /\ (TypeOf(d) = "2429" \/ Has(d, "groups"))
     THEN UNION {GroupRequired(TypeOf(d)) \ DOMAIN Groups(d)[i] : i \in 1..Len(Groups(d))} ELSE {}) \cup
    (IF TypeOf(d) = "2412" THEN UNION {ElemRequired(Elems(d)[i]) \ DOMAIN Elems(d)[i] : i \in 1..Len(Elems(d))}
     ELSE {})
(* types whose message names the missing field *)
Names(t) == t \in {"15", "18", "55", "58", "82", "151", "164", "2400"}

BadKind(d) ==
    \/ TypeOf(d) = "58" /\ Has(d, "func_type") /\ IntText(Val(d, "func_type")) \notin {"0", "1", "2", "3", "4", "6", "9"}
    \* the lists of a 2420 have one entry per system; the defaults are for one
    \/ TypeOf(d) = "2420" /\ Has(d, "CS_sys_labels") /\ Len(Val(d, "CS_sys_labels")) # 1
       /\ ~(Has(d, "CS_types") /\ Has(d, "CS_colors"))
    \/ TypeOf(d) = "55" /\ Has(d, "analysis_type") /\ IntText(Val(d, "analysis_type")) \notin {"2", "3", "5", "7"}

(* -------------------------------- defaults ------------------------------ *)
Zs(n) == <<"N", [i \in 1..n |-> NumZero]>>
None58 == Txt("NONE")
Defaults58 ==
    ("units_description" :> Txt("")) @@ ("id1" :> None58) @@ ("id2" :> None58) @@ ("id3" :> None58)
    @@ ("id4" :> None58) @@ ("id5" :> None58) @@ ("func_id" :> N0) @@ ("ver_num" :> N0) @@ ("binary" :> N0)
    @@ ("load_case_id" :> N0) @@ ("rsp_ent_name" :> None58) @@ ("ref_ent_name" :> None58)
    @@ ("abscissa_axis_lab" :> None58) @@ ("abscissa_axis_units_lab" :> None58)
    @@ ("abscissa_len_unit_exp" :> N0) @@ ("abscissa_force_unit_exp" :> N0) @@ ("abscissa_temp_unit_exp" :> N0)
    @@ ("ordinate_len_unit_exp" :> N0) @@ ("ordinate_force_unit_exp" :> N0) @@ ("ordinate_temp_unit_exp" :> N0)
    @@ ("ordinate_axis_lab" :> None58) @@ ("ordinate_axis_units_lab" :> None58)
    @@ ("orddenom_len_unit_exp" :> N0) @@ ("orddenom_force_unit_exp" :> N0) @@ ("orddenom_temp_unit_exp" :> N0)
    @@ ("orddenom_axis_lab" :> None58) @@ ("orddenom_axis_units_lab" :> None58)
    @@ ("z_axis_len_unit_exp" :> N0) @@ ("z_axis_force_unit_exp" :> N0) @@ ("z_axis_temp_unit_exp" :> N0)
    @@ ("z_axis_axis_lab" :> None58) @@ ("z_axis_axis_units_lab" :> None58) @@ ("z_axis_value" :> N0)
    @@ ("spec_data_type" :> N0) @@ ("abscissa_spec_data_type" :> N0) @@ ("ordinate_spec_data_type" :> N0)
    @@ ("z_axis_spec_data_type" :> N0) @@ ("version_num" :> N0) @@ ("abscissa_spacing" :> N0)
Defaults2414 ==
    [k \in {"record10_field" \o ToString(i) : i \in 1..8} \cup {"record11_field" \o ToString(i) : i \in 1..8}
           \cup {"record12_field" \o ToString(i) : i \in 1..6} \cup {"record13_field" \o ToString(i) : i \in 1..6}
     |-> N0]
GroupDefaults ==
    [k \in {"active_constraint_set_no_for_group", "active_restraint_set_no_for_group",
            "active_load_set_no_for_group", "active_dof_set_no_for_group",
            "active_temperature_set_no_for_group", "active_contact_set_no_for_group"} |-> N0]
CountOf(d, k) == IF Has(d, k) THEN Len(Val(d, k)) ELSE 0
EmptyFun == [k \in {} |-> N0]

(* clock: <<date, time>> texts of the moment of writing (151 only) *)
Defaults(d, clock) ==
    LET t == TypeOf(d)
    IN CASE t = "15" -> LET n == CountOf(d, "node_nums")
                        IN ("def_cs" :> Zs(n)) @@ ("disp_cs" :> Zs(n)) @@ ("color" :> Zs(n))
         [] t = "18" -> LET n == CountOf(d, "cs_num")
                        IN ("cs_type" :> Zs(n)) @@ ("color" :> Zs(n))
                           @@ ("method" :> <<"N", [i \in 1..n |-> IntNum(1)]>>)
                           @@ ("cs_name" :> IF n = 0 THEN <<"N", <<>>>> ELSE <<"T", [i \in 1..n |-> ""]>>)
         [] t = "55" -> ("units_description" :> Txt(" ")) @@ ("id1" :> None58) @@ ("id2" :> None58)
                        @@ ("id3" :> None58) @@ ("id4" :> None58) @@ ("id5" :> None58) @@ ("model_type" :> NV(1))
                        @@ (IF ~Has(d, "analysis_type") THEN EmptyFun
                            ELSE IF Val(d, "analysis_type") = IntNum(2)
                            THEN ("modal_m" :> N0) @@ ("modal_damp_vis" :> N0) @@ ("modal_damp_his" :> N0)
                            ELSE IF Val(d, "analysis_type") \in {IntNum(3), IntNum(7)}
                            THEN ("modal_a" :> <<"c", <<NumZero, NumZero>>>>) @@ ("modal_b" :> <<"c", <<NumZero, NumZero>>>>)
                            ELSE EmptyFun)
         [] t = "58" -> Defaults58
         [] t = "82" -> ("id" :> None58) @@ ("color" :> N0)
         [] t = "151" -> ("version_db1" :> Txt("0")) @@ ("version_db2" :> Txt("0")) @@ ("file_type" :> Txt("0"))
                         @@ ("date_db_created" :> Txt(clock[1])) @@ ("time_db_created" :> Txt(clock[2]))
                         @@ ("date_db_saved" :> Txt(clock[1])) @@ ("time_db_saved" :> Txt(clock[2]))
                         @@ ("date_file_written" :> IF Has(d, "date_db_written") THEN d["date_db_written"] ELSE Txt(clock[1]))
                         @@ ("time_file_written" :> IF Has(d, "time_db_written") THEN d["time_db_written"] ELSE Txt(clock[2]))
         [] t = "164" -> ("units_description" :> Txt("User unit system")) @@ ("temp_mode" :> NV(1))
         [] t = "2400" -> [k \in {"model_uid", "entity_type", "entity_subtype", "version_number", "idm_version_id",
                                  "idm_item_id", "primary_parent_uid", "optimization_switches"} |-> N0]
                          @@ [k \in {"entity_name", "part_number", "date", "time"} |-> Txt("")]
                          @@ ("status_mask" :> Zs(32))
         [] t = "2414" -> Defaults2414
         [] t = "2420" -> ("Part_UID" :> NV(1)) @@ ("Part_Name" :> Txt("None")) @@ ("CS_types" :> Zs(1))
                          @@ ("CS_colors" :> <<"N", <<IntNum(8)>>>>)
         [] OTHER -> EmptyFun
WithDefaults(d, clock) ==
    LET t == TypeOf(d)
    IN IF t \in {"2429", "2467"}
       THEN IF Has(d, "groups")
            THEN [k \in DOMAIN d |-> IF k = "groups" /\ Val(d, k) # <<>> THEN <<"E", [i \in 1..Len(Val(d, k)) |-> Val(d, k)[i] @@ GroupDefaults]>>
                                     ELSE d[k]]
            ELSE IF t = "2429" THEN d @@ GroupDefaults ELSE d
       ELSE d @@ Defaults(d, clock)

(* fields that the writer computes from the data in the caller's dictionary *)
Computed(t) == CASE t = "58" -> {"ord_data_type", "abscissa_min", "n_bytes", "data", "num_pts"}
                 [] OTHER -> {"data"}

(* ----------------------------- function data (58) ----------------------- *)
MaxNum == "17976931348623157E+308"
Fin(v) == CASE v = "nan" -> NumZero [] v = "+inf" -> "+" \o MaxNum [] v = "-inf" -> "-" \o MaxNum [] OTHER -> v
Fin64(v, h) == CASE v = "nan" -> "0000000000000000" [] v = "+inf" -> "7fefffffffffffff"
                 [] v = "-inf" -> "ffefffffffffffff" [] OTHER -> h

Even(d) == ~NumIsZero(Val(d, "abscissa_spacing"))
Binary(d) == ~NumIsZero(Val(d, "binary"))
Cplx(d) == Tag(d, "data") = "C"
NPts(d) == IF Cplx(d) THEN Len(Val(d, "data").re) ELSE Len(Val(d, "data"))
Re(d, i) == Fin(IF Cplx(d) THEN Val(d, "data").re[i] ELSE Val(d, "data")[i])
Im(d, i) == Fin(Val(d, "data").im[i])
Double(d, fd) == fd \/ Val(d, "ord_data_type") \in {IntNum(4), IntNum(6)}
OrdType(d, fd) == IF Cplx(d) THEN IF Double(d, fd) THEN 6 ELSE 5 ELSE IF Double(d, fd) THEN 4 ELSE 2
PerPoint(d) == (IF Cplx(d) THEN 2 ELSE 1) + (IF Even(d) THEN 0 ELSE 1)
(* A window of a very large data-set: "$total" is the number of its rows, "$x0" its first abscissa *)
Total(d, n) == IF Has(d, "$total") THEN d["$total"] ELSE n
X0(d) == IF Has(d, "$x0") THEN Val(d, "$x0") ELSE Val(d, "x")[1]
NBytes(d, fd) == Total(d, NPts(d)) * PerPoint(d) * (IF Double(d, fd) THEN 8 ELSE 4)

(* the data fields of one point, as <<value, is-abscissa>> *)
Point(d, i) == (IF Even(d) THEN <<>> ELSE <<<<Val(d, "x")[i], TRUE>>>>)
               \o <<<<Re(d, i), FALSE>>>> \o (IF Cplx(d) THEN <<<<Im(d, i), FALSE>>>> ELSE <<>>)
DataField(d, fd, f) == IF ~Double(d, fd) THEN E(13, f[1], 6)
                       ELSE IF f[2] THEN E(13, f[1], 6) ELSE E(20, f[1], 12)
PerLine(d, fd) == IF ~Double(d, fd) THEN 6 ELSE IF Even(d) THEN 4 ELSE IF Cplx(d) THEN 3 ELSE 4
DataRecords(d, fd) ==
    Chunk(Flat([i \in 1..NPts(d) |-> [j \in 1..Len(Point(d, i)) |-> DataField(d, fd, Point(d, i)[j])]]),
          PerLine(d, fd))

(* bytes of the payload, in hex; little: byte order *)
ValHex(d, i, part, dbl, little) ==
    LET v == CASE part = "x" -> Val(d, "x")[i]
               [] part = "re" -> (IF Cplx(d) THEN Val(d, "data").re[i] ELSE Val(d, "data")[i])
               [] part = "im" -> Val(d, "data").im[i]
        h == IF dbl THEN IF part = "x" THEN d["$h64"][part][i] ELSE Fin64(v, d["$h64"][part][i])
             ELSE d["$h32"][part][i]
    IN IF little THEN RevBytes(h) ELSE h
RECURSIVE HexOf(_, _, _, _, _)
HexOf(d, i, j, dbl, little) ==          \* of the points i..j
    IF i > j THEN ""
    ELSE IF i < j
    THEN LET m == (i + j) \div 2 IN HexOf(d, i, m, dbl, little) \o HexOf(d, m + 1, j, dbl, little)
    ELSE (IF Even(d) THEN "" ELSE ValHex(d, i, "x", dbl, little)) \o ValHex(d, i, "re", dbl, little)
         \o (IF Cplx(d) THEN ValHex(d, i, "im", dbl, little) ELSE "")
Payload(d, fd, little) == HexOf(d, 1, NPts(d), Double(d, fd), little)

Axis(d, p) == <<I(10, Val(d, p \o "_spec_data_type")), I(5, Val(d, p \o "_len_unit_exp")),
                I(5, Val(d, p \o "_force_unit_exp")), I(5, Val(d, p \o "_temp_unit_exp")),
                X(1), A(20, Val(d, p \o "_axis_lab")), X(1), A(20, Val(d, p \o "_axis_units_lab"))>>
Ids(d) == [i \in 1..5 |-> <<A(80, Val(d, "id" \o ToString(i)))>>]
Header58(d, fd) ==
    Ids(d) \o
    <<<<I(5, Val(d, "func_type")), I(10, Val(d, "func_id")), I(5, Val(d, "ver_num")), I(10, Val(d, "load_case_id")),
        X(1), A(10, Val(d, "rsp_ent_name")), I(10, Val(d, "rsp_node")), I(4, Val(d, "rsp_dir")),
        X(1), A(10, Val(d, "ref_ent_name")), I(10, Val(d, "ref_node")), I(4, Val(d, "ref_dir"))>>,
      <<K(10, OrdType(d, fd)), K(10, Total(d, NPts(d))), K(10, IF Even(d) THEN 1 ELSE 0),
        E(13, IF Even(d) THEN X0(d) ELSE NumZero, 6),
        E(13, IF Even(d) THEN Val(d, "$dx") ELSE NumZero, 6), E(13, Val(d, "z_axis_value"), 6)>>,
      Axis(d, "abscissa"), Axis(d, "ordinate"), Axis(d, "orddenom"), Axis(d, "z_axis")>>

(* --------------------------- records of a block ------------------------- *)
NF(d, w, keys) == [i \in 1..Len(keys) |-> I(w, Val(d, keys[i]))]
EF(d, w, p, keys) == [i \in 1..Len(keys) |-> E(w, Val(d, keys[i]), p)]
Reals(w, p, vs) == [i \in 1..Len(vs) |-> E(w, vs[i], p)]
CRe(x) == IF x[1] = "c" THEN x[2][1] ELSE x[2]
CIm(x) == IF x[1] = "c" THEN x[2][2] ELSE NumZero
(* component k of a (real or complex) list *)
ReAt(x, k) == IF x[1] = "C" THEN x[2].re[k] ELSE x[2][k]
ImAt(x, k) == IF x[1] = "C" THEN x[2].im[k] ELSE NumZero

SixPerNode(d) == Has(d, "r4") /\ Has(d, "r5") /\ Has(d, "r6")
Cplx55(d) == Tag(d, "r1") = "C"
Node55(d, k) ==
    LET names == IF SixPerNode(d) THEN <<"r1", "r2", "r3", "r4", "r5", "r6">> ELSE <<"r1", "r2", "r3">>
        vals == IF Cplx55(d) THEN Flat([i \in 1..Len(names) |-> <<ReAt(d[names[i]], k), ImAt(d[names[i]], k)>>])
                ELSE [i \in 1..Len(names) |-> ReAt(d[names[i]], k)]
    IN <<<<I(10, Val(d, "node_nums")[k])>>>> \o Chunk(Reals(13, 6, vals), 6)
Body55(d) ==
    LET an == Val(d, "analysis_type")
    IN Ids(d) \o
       <<NF(d, 10, <<"model_type", "analysis_type", "data_ch", "spec_data_type">>)
         \o <<K(10, IF Cplx55(d) THEN 5 ELSE 2), K(10, IF SixPerNode(d) THEN 6 ELSE 3)>>>>
       \o (IF an = IntNum(2)
           THEN <<<<K(10, 2), K(10, 4), I(10, Val(d, "load_case")), I(10, Val(d, "mode_n"))>>,
                  EF(d, 13, 6, <<"freq", "modal_m", "modal_damp_vis", "modal_damp_his">>)>>
           ELSE IF an = IntNum(5)
           THEN <<<<K(10, 2), K(10, 1), I(10, Val(d, "load_case")), I(10, Val(d, "freq_step_n"))>>,
                  EF(d, 13, 6, <<"freq">>)>>
           ELSE <<<<K(10, 2), K(10, 6), I(10, Val(d, "load_case")), I(10, Val(d, "mode_n"))>>,
                  Reals(13, 6, <<CRe(d["eig"]), CIm(d["eig"]), CRe(d["modal_a"]), CIm(d["modal_a"]),
                                 CRe(d["modal_b"]), CIm(d["modal_b"])>>)>>)
       \o Flat([k \in 1..Len(Val(d, "node_nums")) |-> Node55(d, k)])

Elem2412(e) ==
    <<NF(e, 10, <<"element_nums", "fe_descriptor", "phys_table", "mat_table", "color", "num_nodes">>)>>
    \o (IF IntText(Val(e, "fe_descriptor")) \in Rod
        THEN <<NF(e, 10, <<"beam_orientation", "beam_foreend_cross", "beam_aftend_cross">>)>> ELSE <<>>)
    \o Chunk([i \in 1..Len(Val(e, "nodes_nums")) |-> I(10, Val(e, "nodes_nums")[i])], 8)

Body2414(d) ==
    LET f5 == Val(d, "analysis_type") = IntNum(5)
        loc == IntText(Val(d, "dataset_location"))
        fields(r, n) == [i \in 1..n |-> "record" \o r \o "_field" \o ToString(i)]
        m == Val(d, "number_of_data_values_for_the_data_component")
        comps == IF m = IntNum(1) THEN <<"x">> ELSE IF m = IntNum(2) THEN <<"x", "y">> ELSE <<"x", "y", "z">>
    IN <<<<I(10, Val(d, "analysis_dataset_label"))>>, <<A(80, Val(d, "analysis_dataset_name"))>>,
         <<I(10, Val(d, "dataset_location"))>>>>
       \o Ids(d)
       \o <<NF(d, 10, <<"model_type", "analysis_type", "data_characteristic", "result_type", "data_type",
                        "number_of_data_values_for_the_data_component">>)>>
       \o (IF f5
           THEN <<NF(d, 10, <<"design_set_id", "iteration_number", "solution_set_id", "boundary_condition",
                              "load_set", "mode_number", "time_step_number", "frequency_number">>),
                  NF(d, 10, <<"creation_option", "number_retained">>),
                  EF(d, 13, 6, <<"time", "frequency", "eigenvalue", "modal_mass", "viscous_damping",
                                 "hysteretic_damping">>),
                  EF(d, 13, 6, <<"real_part_eigenvalue", "imaginary_part_eigenvalue",
                                 "real_part_of_modal_A_or_modal_mass", "imaginary_part_of_modal_A_or_modal_mass",
                                 "real_part_of_modal_B_or_modal_mass", "imaginary_part_of_modal_B_or_modal_mass">>)>>
                \o Flat([k \in 1..Len(Val(d, "node_nums")) |->
                         <<<<I(10, Val(d, "node_nums")[k])>>,
                           Reals(13, 6, Flat([c \in 1..Len(comps) |->
                                              <<ReAt(d[comps[c]], k), ImAt(d[comps[c]], k)>>]))>>])
           ELSE <<NF(d, 10, fields("10", 8)), NF(d, 10, fields("11", 8)),
                  EF(d, 13, 6, fields("12", 6)), EF(d, 13, 6, fields("13", 6))>>
                \o (CASE loc = "1" ->
                         Flat([k \in 1..Len(Val(d, "node_nums")) |->
                               <<<<I(10, Val(d, "node_nums")[k])>>>>
                               \o Chunk(Reals(13, 6, Val(d, "data_at_node")[k]), 6)])
                      [] loc = "2" ->
                         Flat([k \in 1..Len(Val(d, "element_nums")) |->
                               <<<<I(10, Val(d, "element_nums")[k]), K(10, Len(Val(d, "data_at_element")[k]))>>>>
                               \o Chunk(Reals(13, 6, Val(d, "data_at_element")[k]), 6)])
                      [] loc = "3" ->
                         Flat([k \in 1..Len(Val(d, "element_nums")) |->
                               <<<<I(10, Val(d, "element_nums")[k]), I(10, Val(d, "IEXP")[k]),
                                   I(10, Val(d, "number_of_nodes")[k]), I(10, Val(d, "number_of_values_per_node")[k])>>>>
                               \o Flat([j \in 1..Len(Val(d, "data_at_nodes_on_element")[k]) |->
                                        Chunk(Reals(13, 6, Val(d, "data_at_nodes_on_element")[k][j]), 6)])])
                      [] OTHER -> <<>>))

Group(g, t) ==
    LET n == Len(Val(g, "entity_type_code"))
        ent(i) == IF t = "2467"
                  THEN <<Val(g, "entity_type_code")[i], Val(g, "entity_tag")[i], Val(g, "entity_node_leaf_id")[i],
                         Val(g, "entity_component_id")[i]>>
                  ELSE <<Val(g, "entity_type_code")[i], Val(g, "entity_tag")[i]>>
        vals == Flat([i \in 1..n |-> ent(i)])
    IN <<NF(g, 10, <<"group_number", "active_constraint_set_no_for_group", "active_restraint_set_no_for_group",
                     "active_load_set_no_for_group", "active_dof_set_no_for_group",
                     "active_temperature_set_no_for_group", "active_contact_set_no_for_group">>) \o <<K(10, Total(g, n))>>,
         <<A(40, Val(g, "group_name"))>>>>
       \o Chunk([i \in 1..Len(vals) |-> I(10, vals[i])], 8)

(* d: with defaults; the records between the type record and the closing delimiter
   (of 58b: the ascii ones) *)
Body(d, fd) ==
    LET t == TypeOf(d)
        at(k, i) == Val(d, k)[i]
    IN CASE t = "15" ->
            [i \in 1..Len(Val(d, "node_nums")) |->
             <<I(10, at("node_nums", i)), I(10, at("def_cs", i)), I(10, at("disp_cs", i)), I(10, at("color", i)),
               E(13, at("x", i), 6), E(13, at("y", i), 6), E(13, at("z", i), 6)>>]
         [] t = "18" ->
            Flat([i \in 1..Len(Val(d, "cs_num")) |->
             <<<<I(10, at("cs_num", i)), I(10, at("cs_type", i)), I(10, at("ref_cs_num", i)), I(10, at("color", i)),
                 I(10, at("method", i))>>,
               <<A(40, at("cs_name", i))>>,
               Reals(13, 6, at("ref_o", i) \o at("x_point", i)), Reals(13, 6, at("xz_point", i))>>])
         [] t = "55" -> Body55(d)
         [] t = "58" -> Header58(d, fd) \o (IF Binary(d) THEN <<>> ELSE DataRecords(d, fd))
         [] t = "82" ->
            <<<<I(10, Val(d, "trace_num")), K(10, Total(d, Len(Val(d, "nodes")))), I(10, Val(d, "color"))>>, <<A(80, Val(d, "id"))>>>>
            \o Chunk([i \in 1..Len(Val(d, "nodes")) |-> I(10, at("nodes", i))], 8)
         [] t = "151" ->
            <<<<A(80, Val(d, "model_name"))>>, <<A(80, Val(d, "description"))>>, <<A(80, Val(d, "db_app"))>>,
              <<A(10, Val(d, "date_db_created")), A(10, Val(d, "time_db_created")), V(10, d["version_db1"]),
                V(10, d["version_db2"]), V(10, d["file_type"])>>,
              <<A(10, Val(d, "date_db_saved")), A(10, Val(d, "time_db_saved"))>>, <<A(80, Val(d, "program"))>>,
              <<A(10, Val(d, "date_file_written")), A(10, Val(d, "time_file_written"))>>>>
         [] t = "164" ->
            <<<<I(10, Val(d, "units_code")), A(20, Val(d, "units_description")), I(10, Val(d, "temp_mode"))>>,
              [i \in 1..3 |-> DP(25, Val(d, <<"length", "force", "temp">>[i]), 17)], <<DP(25, Val(d, "temp_offset"), 17)>>>>
         [] t = "1858" ->
            <<NF(d, 12, <<"record_num", "octave_format", "measurement_run">>) \o <<K(12, 0), K(12, 0), K(12, 0)>>,
              NF(d, 6, <<"weighting_type", "window_type", "amplitude_units", "normalization_method",
                         "abscissa_data_type_qualifier", "ordinate_numerator_data_type_qualifier",
                         "ordinate_denominator_data_type_qualifier", "z_axis_data_type_qualifier",
                         "sampling_type">>) \o <<K(6, 0), K(6, 0), K(6, 0)>>,
              EF(d, 15, 8, <<"z_rpm_value", "z_time_value", "z_order_value", "num_of_samples">>) \o <<E(15, NumZero, 1)>>,
              EF(d, 15, 8, <<"user_value_1", "user_value_2", "user_value_3", "user_value_4",
                             "exponential_window_damping_factor">>),
              [i \in 1..5 |-> E(15, NumZero, 1)],
              <<A(4, Val(d, "response_direction")), X(2), A(4, Val(d, "reference_direction"))>>,
              <<A(80, "NONE")>>>>
         [] t = "2400" ->
            <<<<I(12, Val(d, "model_uid")), I(6, Val(d, "entity_type")), I(6, Val(d, "entity_subtype")),
                I(12, Val(d, "version_number"))>>,
              <<A(80, Val(d, "entity_name"))>>, <<A(80, Val(d, "part_number"))>>,
              [i \in 1..32 |-> I(2, at("status_mask", i))],
              <<A(10, Val(d, "date")), A(10, Val(d, "time")), I(12, Val(d, "idm_version_id")),
                I(12, Val(d, "idm_item_id")), I(12, Val(d, "primary_parent_uid"))>>,
              <<I(12, Val(d, "optimization_switches"))>>>>
         [] t = "2411" ->
            Flat([i \in 1..Len(Val(d, "node_nums")) |->
             <<<<I(10, at("node_nums", i)), I(10, at("def_cs", i)), I(10, at("disp_cs", i)), I(10, at("color", i))>>,
               Reals(25, 17, <<at("x", i), at("y", i), at("z", i)>>)>>])
         [] t = "2412" -> Flat([i \in 1..Len(Elems(d)) |-> Elem2412(Elems(d)[i])])
         [] t = "2414" -> Body2414(d)
         [] t = "2420" ->
            <<<<I(10, Val(d, "Part_UID"))>>, <<A(80, Val(d, "Part_Name"))>>>> \o
            Flat([i \in 1..Len(Val(d, "CS_sys_labels")) |->
             <<<<I(10, at("CS_sys_labels", i)), I(10, at("CS_types", i)), I(10, at("CS_colors", i))>>,
               <<A(80, at("CS_names", i))>>>>
             \o [r \in 1..4 |-> Reals(25, 17, at("CS_matrices", i)[r])]])
         [] t \in {"2429", "2467"} -> Flat([i \in 1..Len(Groups(d)) |-> Group(Groups(d)[i], t)])

TypeRecord(d, fd, bo) ==
    LET t == <<"I", 6, Val(d, "type")>>
    IN IF TypeOf(d) = "58" /\ Binary(d)
       THEN <<t, A(1, "b"), K(6, bo), K(6, 2), K(12, 11), K(12, NBytes(d, fd)), K(6, 0), K(6, 0), K(12, 0), K(12, 0)>>
       ELSE <<t>>
(* all text records of a block; of 58b those before the payload *)
BlockRecords(d, fd, bo) ==
    <<<<K(6, -1)>>, TypeRecord(d, fd, bo)>> \o Body(d, fd)
    \o (IF TypeOf(d) = "58" /\ Binary(d) THEN <<>> ELSE <<<<K(6, -1)>>>>)

(* ------------------------------- reading -------------------------------- *)
(* r: what read_sets returned. Sets of names of the fields that are wrong. *)
NumIs(r, k, v, p) == Has(r, k) /\ Tag(r, k) = "n" /\ SameNum(Val(r, k), v, p)
SeqSame(a, b, p) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : SameNum(a[i], b[i], p)
ListIs(r, k, vs, p) == Has(r, k) /\ Tag(r, k) = "N" /\ SeqSame(Val(r, k), vs, p)
CplxIs(r, k, re, im, p) == Has(r, k) /\ Tag(r, k) = "C" /\ SeqSame(Val(r, k).re, re, p) /\ SeqSame(Val(r, k).im, im, p)
CIs(r, k, re, im, p) == Has(r, k) /\ Tag(r, k) = "c" /\ SameNum(Val(r, k)[1], re, p) /\ SameNum(Val(r, k)[2], im, p)
TextIs(r, k, s) == Has(r, k) /\ Tag(r, k) = "t" /\ Val(r, k) = Trim(s)
TextsAre(r, k, ss) == IF ss = <<>> THEN Has(r, k) /\ Val(r, k) = <<>>
                      ELSE Has(r, k) /\ Tag(r, k) = "T" /\ Len(Val(r, k)) = Len(ss)
                           /\ \A i \in 1..Len(ss) : Val(r, k)[i] = Trim(ss[i])
RowsAre(r, k, rows, p) == IF rows = <<>> THEN Has(r, k) /\ Val(r, k) = <<>>
                          ELSE Has(r, k) /\ Tag(r, k) = "M" /\ Len(Val(r, k)) = Len(rows)
                               /\ \A i \in 1..Len(rows) : SeqSame(Val(r, k)[i], rows[i], p)
RowsRowsAre(r, k, m, p) == IF m = <<>> THEN Has(r, k) /\ Val(r, k) = <<>>
                           ELSE Has(r, k) /\ Tag(r, k) = "MM" /\ Len(Val(r, k)) = Len(m)
                                /\ \A i \in 1..Len(m) : Len(Val(r, k)[i]) = Len(m[i])
                                   /\ \A j \in 1..Len(m[i]) : SeqSame(Val(r, k)[i][j], m[i][j], p)
(* number, or text that is a number *)
NumOf(x) == IF x[1] = "n" THEN x[2] ELSE FieldNum(ParseNum(Trim(x[2])))
Bad(cond, k) == IF cond THEN {} ELSE {k}
BadNums(d, r, ks, p) == {k \in ks : ~NumIs(r, k, Val(d, k), p)}
BadTexts(d, r, ks) == {k \in ks : ~TextIs(r, k, Val(d, k))}
BadLists(d, r, ks, p) == {k \in ks : ~ListIs(r, k, Val(d, k), p)}

AxisNums == {a \o b : a \in {"abscissa", "ordinate", "orddenom", "z_axis"},
                      b \in {"_spec_data_type", "_len_unit_exp", "_force_unit_exp", "_temp_unit_exp"}}
AxisTexts == {a \o b : a \in {"abscissa", "ordinate", "orddenom", "z_axis"}, b \in {"_axis_lab", "_axis_units_lab"}}
IdKeys == {"id1", "id2", "id3", "id4", "id5"}
Part(d, what) == [i \in 1..NPts(d) |-> IF what = "re" THEN Re(d, i) ELSE Im(d, i)]
(* precision of function data after the file; single-precision binary: the float32 value *)
BadRead58(d, fd, r, ho) ==
    LET dbl == Double(d, fd)
        bin == Binary(d)
        p == IF bin THEN 17 ELSE IF dbl THEN 12 ELSE 6
        px == IF bin THEN 17 ELSE 6
        exact32 == bin /\ ~dbl
        re == IF exact32 THEN d["$f32"]["re"] ELSE Part(d, "re")
        im == IF exact32 THEN d["$f32"]["im"] ELSE Part(d, "im")
        xs == IF exact32 THEN d["$f32"]["x"] ELSE Val(d, "x")
    IN BadNums(d, r, AxisNums \cup {"func_type", "func_id", "ver_num", "load_case_id", "rsp_node", "rsp_dir",
                                    "ref_node", "ref_dir"}, 17)
       \cup BadNums(d, r, {"z_axis_value"}, 6)
       \cup BadTexts(d, r, AxisTexts \cup IdKeys \cup {"rsp_ent_name", "ref_ent_name"})
       \cup Bad(NumIs(r, "binary", IF bin THEN IntNum(1) ELSE NumZero, 17), "binary")
       \cup Bad(NumIs(r, "ord_data_type", IntNum(OrdType(d, fd)), 17), "ord_data_type")
       \cup Bad(NumIs(r, "num_pts", IntNum(Total(d, NPts(d))), 17), "num_pts")
       \cup Bad(NumIs(r, "abscissa_spacing", IF Even(d) THEN IntNum(1) ELSE NumZero, 17), "abscissa_spacing")
       \cup Bad(NumIs(r, "abscissa_min", IF Even(d) THEN X0(d) ELSE NumZero, 6), "abscissa_min")
       \cup Bad(NumIs(r, "abscissa_inc", IF Even(d) THEN Val(d, "$dx") ELSE NumZero, 6), "abscissa_inc")
       \cup (IF bin THEN Bad(NumIs(r, "n_bytes", IntNum(NBytes(d, fd)), 17), "n_bytes")
                         \cup Bad(NumIs(r, "n_ascii_lines", IntNum(11), 17), "n_ascii_lines")
                         \cup Bad(NumIs(r, "fp_format", IntNum(2), 17), "fp_format")
                         \cup (IF Has(d, "$bo") THEN Bad(NumIs(r, "byte_ordering", Val(d, "$bo"), 17), "byte_ordering") ELSE {})
             ELSE {})
       \cup (IF ho THEN Bad(Has(r, "data") /\ Tag(r, "data") = "0", "data") \cup Bad(Has(r, "x") /\ Tag(r, "x") = "0", "x")
             ELSE Bad(IF Cplx(d) THEN CplxIs(r, "data", re, im, p) ELSE ListIs(r, "data", re, p), "data")
                  \cup (IF Even(d) THEN Bad(Has(r, "x") /\ Tag(r, "x") = "N" /\ Len(Val(r, "x")) = NPts(d)
                                            /\ \A i \in 1..NPts(d) : CloseNum(Val(r, "x")[i], Val(d, "$xr")[i], 10), "x")
                        ELSE Bad(ListIs(r, "x", xs, px), "x")))

BadRead55(d, r) ==
    LET an == Val(d, "analysis_type")
        names == IF SixPerNode(d) THEN {"r1", "r2", "r3", "r4", "r5", "r6"} ELSE {"r1", "r2", "r3"}
        n == Len(Val(d, "node_nums"))
    IN BadTexts(d, r, IdKeys)
       \cup BadNums(d, r, {"model_type", "analysis_type", "data_ch", "spec_data_type", "load_case"}
                          \cup (IF an = IntNum(5) THEN {"freq_step_n"} ELSE {"mode_n"}), 17)
       \cup Bad(NumIs(r, "data_type", IntNum(IF Cplx55(d) THEN 5 ELSE 2), 17), "data_type")
       \cup Bad(NumIs(r, "n_data_per_node", IntNum(IF SixPerNode(d) THEN 6 ELSE 3), 17), "n_data_per_node")
       \cup (IF an = IntNum(2) THEN BadNums(d, r, {"freq", "modal_m", "modal_damp_vis", "modal_damp_his"}, 6)
             ELSE IF an = IntNum(5) THEN BadNums(d, r, {"freq"}, 6)
             ELSE {k \in {"eig", "modal_a", "modal_b"} : ~CIs(r, k, CRe(d[k]), CIm(d[k]), 6)})
       \cup Bad(ListIs(r, "node_nums", Val(d, "node_nums"), 17), "node_nums")
       \cup {k \in names : ~(IF Cplx55(d) THEN CplxIs(r, k, [i \in 1..n |-> ReAt(d[k], i)], [i \in 1..n |-> ImAt(d[k], i)], 6)
                             ELSE ListIs(r, k, Val(d, k), 6))}

(* 2412: elements grouped by descriptor, in order of first appearance *)
ElemNums == {"element_nums", "fe_descriptor", "phys_table", "mat_table", "color", "num_nodes"}
Descs(es) == [i \in 1..Len(es) |-> Val(es[i], "fe_descriptor")]
RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>>
               ELSE LET rest == Distinct(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)]
                    IN IF \E i \in 1..Len(rest) : rest[i] = x THEN rest ELSE Append(rest, x)
OfDesc(es, v) == LET Is(e) == Val(e, "fe_descriptor") = v IN SelectSeq(es, Is)
Grouped(es) == LET ds == Distinct(Descs(es)) IN Flat([i \in 1..Len(ds) |-> OfDesc(es, ds[i])])
ElemSame(r, e) ==
    /\ \A k \in ElemNums : NumIs(r, k, Val(e, k), 17)
    /\ ListIs(r, "nodes_nums", Val(e, "nodes_nums"), 17)
    /\ IntText(Val(e, "fe_descriptor")) \in Rod =>
         \A k \in {"beam_orientation", "beam_foreend_cross", "beam_aftend_cross"} : NumIs(r, k, Val(e, k), 17)
Legacy(r, name, es) ==
    IF es = <<>> THEN ~Has(r, name)
    ELSE /\ Has(r, name) /\ Tag(r, name) = "D"
         /\ LET L == Val(r, name)
            IN /\ \A k \in ElemNums : ListIs(L, k, [i \in 1..Len(es) |-> Val(es[i], k)], 17)
               /\ RowsAre(L, "nodes_nums", [i \in 1..Len(es) |-> Val(es[i], "nodes_nums")], 17)
BadRead2412(d, r) ==
    LET es == Grouped(Elems(d))
    IN Bad(Has(r, "$elems") /\ Len(Elems(r)) = Len(es) /\ \A i \in 1..Len(es) : ElemSame(Elems(r)[i], es[i]), "elements")
       \cup Bad(Has(r, "$keys") /\ Len(Val(r, "$keys")) = Len(es)
                /\ \A i \in 1..Len(es) : Val(r, "$keys")[i] = Val(es[i], "fe_descriptor"), "descriptor keys")
       \cup Bad(Legacy(r, "triangle", OfDesc(es, IntNum(41))), "triangle")
       \cup Bad(Legacy(r, "quad", OfDesc(es, IntNum(44))), "quad")

(* the values of an element are read line by line, 6 values per line *)
SixPerLine(els) == [i \in 1..Len(els) |-> Flat([j \in 1..Len(els[i]) |-> Chunk(els[i][j], 6)])]
BadRead2414(d, r) ==
    LET f5 == Val(d, "analysis_type") = IntNum(5)
        loc == IntText(Val(d, "dataset_location"))
        m == Val(d, "number_of_data_values_for_the_data_component")
        comps == IF m = IntNum(1) THEN {"x"} ELSE IF m = IntNum(2) THEN {"x", "y"} ELSE {"x", "y", "z"}
        fields(rr, n) == {"record" \o rr \o "_field" \o ToString(i) : i \in 1..n}
    IN BadNums(d, r, {"analysis_dataset_label", "dataset_location", "model_type", "analysis_type",
                      "data_characteristic", "result_type", "data_type",
                      "number_of_data_values_for_the_data_component"}, 17)
       \cup BadTexts(d, r, IdKeys \cup {"analysis_dataset_name"})
       \cup (IF f5 THEN
               BadNums(d, r, {"design_set_id", "iteration_number", "solution_set_id", "boundary_condition", "load_set",
                              "mode_number", "time_step_number", "frequency_number", "creation_option",
                              "number_retained"}, 17)
               \cup BadNums(d, r, {"time", "frequency", "eigenvalue", "modal_mass", "viscous_damping",
                                   "hysteretic_damping", "real_part_eigenvalue", "imaginary_part_eigenvalue",
                                   "real_part_of_modal_A_or_modal_mass", "imaginary_part_of_modal_A_or_modal_mass",
                                   "real_part_of_modal_B_or_modal_mass",
                                   "imaginary_part_of_modal_B_or_modal_mass"}, 6)
               \cup BadLists(d, r, {"node_nums"}, 17)
               \cup {k \in comps : ~CplxIs(r, k, [i \in 1..Len(Val(d, "node_nums")) |-> ReAt(d[k], i)],
                                               [i \in 1..Len(Val(d, "node_nums")) |-> ImAt(d[k], i)], 6)}
             ELSE
               BadNums(d, r, fields("10", 8) \cup fields("11", 8), 17)
               \cup BadNums(d, r, fields("12", 6) \cup fields("13", 6), 6)
               \cup (CASE loc = "1" -> BadLists(d, r, {"node_nums"}, 17)
                                       \cup Bad(RowsAre(r, "data_at_node", Val(d, "data_at_node"), 6), "data_at_node")
                       [] loc = "2" -> BadLists(d, r, {"element_nums"}, 17)
                                       \cup Bad(ListIs(r, "NDVAL", [i \in 1..Len(Val(d, "element_nums")) |->
                                                       IntNum(Len(Val(d, "data_at_element")[i]))], 17), "NDVAL")
                                       \cup Bad(RowsAre(r, "data_at_element", Val(d, "data_at_element"), 6), "data_at_element")
                       [] loc = "3" -> BadLists(d, r, {"element_nums", "IEXP", "number_of_nodes",
                                                       "number_of_values_per_node"}, 17)
                                       \cup Bad(RowsRowsAre(r, "data_at_nodes_on_element",
                                                            SixPerLine(Val(d, "data_at_nodes_on_element")), 6), "data_at_nodes_on_element")
                       [] OTHER -> {}))

GroupNums == {"group_number"} \cup DOMAIN GroupDefaults
GroupSame(r, g, t) ==
    /\ \A k \in GroupNums : NumIs(r, k, Val(g, k), 17)
    /\ TextIs(r, "group_name", Val(g, "group_name"))
    /\ NumIs(r, "number_of_entities_in_group", IntNum(Total(g, Len(Val(g, "entity_type_code")))), 17)
    /\ \A k \in {"entity_type_code", "entity_tag"} \cup
                (IF t = "2467" THEN {"entity_node_leaf_id", "entity_component_id"} ELSE {}) :
          ListIs(r, k, Val(g, k), 17)

(* the names of the fields of r that do not carry the data of d (d with defaults) *)
BadRead(d, fd, r, ho) ==
    LET t == TypeOf(d)
    IN Bad(NumIs(r, "type", Val(d, "type"), 17), "type") \cup
       CASE t = "15" -> BadLists(d, r, {"node_nums", "def_cs", "disp_cs", "color"}, 17) \cup BadLists(d, r, {"x", "y", "z"}, 6)
         [] t = "18" -> BadLists(d, r, {"cs_num", "cs_type", "ref_cs_num", "color", "method"}, 17)
                        \cup Bad(TextsAre(r, "cs_name", Val(d, "cs_name")), "cs_name")
                        \cup {k \in {"ref_o", "x_point", "xz_point"} : ~RowsAre(r, k, Val(d, k), 6)}
         [] t = "55" -> BadRead55(d, r)
         [] t = "58" -> BadRead58(d, fd, r, ho)
         [] t = "82" -> BadNums(d, r, {"trace_num", "color"}, 17)
                        \cup Bad(NumIs(r, "n_nodes", IntNum(Total(d, Len(Val(d, "nodes")))), 17), "n_nodes")
                        \cup BadTexts(d, r, {"id"}) \cup BadLists(d, r, {"nodes"}, 17)
         [] t = "151" -> BadTexts(d, r, {"model_name", "description", "db_app", "program", "date_db_created",
                                         "time_db_created", "date_db_saved", "time_db_saved", "date_file_written",
                                         "time_file_written"})
                         \cup {k \in {"version_db1", "version_db2", "file_type"} : ~NumIs(r, k, NumOf(d[k]), 17)}
         [] t = "164" -> BadNums(d, r, {"units_code", "temp_mode", "length", "force", "temp", "temp_offset"}, 17)
                         \cup BadTexts(d, r, {"units_description"})
         [] t = "1858" -> BadNums(d, r, {"record_num", "octave_format", "measurement_run", "weighting_type",
                                         "window_type", "amplitude_units", "normalization_method",
                                         "abscissa_data_type_qualifier", "ordinate_numerator_data_type_qualifier",
                                         "ordinate_denominator_data_type_qualifier", "z_axis_data_type_qualifier",
                                         "sampling_type"}, 17)
                          \cup BadNums(d, r, {"z_rpm_value", "z_time_value", "z_order_value", "num_of_samples",
                                              "user_value_1", "user_value_2", "user_value_3", "user_value_4",
                                              "exponential_window_damping_factor"}, 8)
                          \cup BadTexts(d, r, {"response_direction", "reference_direction"})
         [] t = "2400" -> BadNums(d, r, {"model_uid", "entity_type", "entity_subtype", "version_number",
                                         "idm_version_id", "idm_item_id", "primary_parent_uid",
                                         "optimization_switches"}, 17)
                          \cup BadTexts(d, r, {"entity_name", "part_number", "date", "time"})
                          \cup BadLists(d, r, {"status_mask"}, 17)
         [] t = "2411" -> BadLists(d, r, {"node_nums", "def_cs", "disp_cs", "color", "x", "y", "z"}, 17)
         [] t = "2412" -> BadRead2412(d, r)
         [] t = "2414" -> BadRead2414(d, r)
         [] t = "2420" -> BadNums(d, r, {"Part_UID"}, 17)
                          \cup Bad(TextIs(r, "Part_Name", Val(d, "Part_Name")), "Part_Name")
                          \cup BadLists(d, r, {"CS_sys_labels", "CS_types", "CS_colors"}, 17)
                          \cup Bad(TextsAre(r, "CS_names", Val(d, "CS_names")), "CS_names")
                          \cup Bad(RowsRowsAre(r, "CS_matrices", Val(d, "CS_matrices"), 17), "CS_matrices")
         [] t \in {"2429", "2467"} ->
            Bad(Has(r, "groups") /\ Len(Val(r, "groups")) = Len(Groups(d))
                /\ \A i \in 1..Len(Groups(d)) : GroupSame(Val(r, "groups")[i], Groups(d)[i], t), "groups")
         [] OTHER -> {}
=============================================================================
