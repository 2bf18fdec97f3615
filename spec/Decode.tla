------------------------------- MODULE Decode -------------------------------
(* What a device's answer says (SPC-4, SBC-3, SAT-3, SES-3): for every structure the library decodes, the tree of named
   values its bytes stand for.  Value(kind, par, b) is that tree; Diff compares it with what the library returned.
   Offsets are from the standards' tables; an answer's own length fields say where its lists and strings end.           *)
EXTENDS Bytes, TLC

If(b, x) == IF b THEN {} ELSE {x}
\* ================================== trees =======================================
I(v) == [t |-> "i", v |-> v]                              \* a natural
Sm(n) == I(OfNat(n))
T(b) == [t |-> "s", v |-> b]                              \* text, without the blanks after it
Raw(b) == [t |-> "b", v |-> b]
Ls(s) == [t |-> "l", v |-> s]
Unsaid == [t |-> "any", v |-> <<>>]
Or(S) == [t |-> "or", v |-> S]
None == [t |-> "z", v |-> <<>>]
Error == [t |-> "x", v |-> <<>>]
Names(fs) == {fs[i][1] : i \in DOMAIN fs}
Rec(fs) == [t |-> "o", v |-> [n \in Names(fs) |-> fs[CHOOSE i \in DOMAIN fs : fs[i][1] = n][2]]]
RTrim(b) == LET k == {i \in DOMAIN b : b[i] \notin Blank}
            IN IF k = {} THEN <<>> ELSE SubSeq(b, 1, CHOOSE i \in k : \A j \in k : j <= i)
RECURSIVE Diff(_, _, _)
Diff(x, o, path) ==                                       \* where the observed value o is not the expected x
    CASE x.t = "any" -> {}
      [] x.t = "or" -> IF \E y \in x.v : Diff(y, o, path) = {} THEN {} ELSE {path}
      [] x.t = "z" -> If(o.t \in {"z", "m"}, path)
      [] x.t = "x" -> If(o.t = "x", path)
      [] x.t = "s" -> If(o.t \in {"s", "b"} /\ RTrim(o.v) = RTrim(x.v), path)
      [] x.t = "o" -> IF o.t # "o" THEN {path} ELSE UNION {Diff(x.v[f], Get(o, f), path \o "." \o f) : f \in DOMAIN x.v}
      [] x.t = "l" -> IF o.t # "l" \/ Len(o.v) # Len(x.v) THEN {path \o " length"}
                      ELSE UNION {Diff(x.v[i], o.v[i], path \o "." \o ToString(i)) : i \in DOMAIN x.v}
      [] OTHER -> If(o.t = x.t /\ o.v = x.v, path)

\* ================================= layouts ======================================
\* <<name, pieces>>, most significant piece first
BB(a, n) == [i \in 1..n |-> <<a + i - 1, 7, 0>>]
F(f, a, n) == <<f, BB(a, n)>>
G(f, byte, hi, lo) == <<f, <<<<byte, hi, lo>>>>>>
Bit1(f, byte, k) == G(f, byte, k, k)
Num(b, f) == I(BitNat(PieceBits(b, f[2])))
Nums(b, fs) == [i \in DOMAIN fs |-> <<fs[i][1], Num(b, fs[i])>>]
Text(b, f, a, n) == <<f, T(Slice(b, a, n))>>
U(b, a, n) == ToNat(Slice(b, a, n))                       \* a short number
From(b, a) == SubSeq(b, a + 1, Len(b))
Cut(b, n) == SubSeq(b, 1, IF n < Len(b) THEN n ELSE Len(b))
Min2(a, b) == IF a < b THEN a ELSE b
U8s(b) == Ls([i \in DOMAIN b |-> Sm(b[i])])
RECURSIVE Chunks(_, _)                                    \* whole chunks of n bytes
Chunks(b, n) == IF Len(b) < n THEN <<>> ELSE <<SubSeq(b, 1, n)>> \o Chunks(From(b, n), n)

Peripheral(b) == <<"peripheral_device", Rec(Nums(b, <<G("type", 0, 4, 0), G("qualifier", 0, 7, 5)>>))>>

\* ---- standard INQUIRY data (SPC-4 6.4.2) ----------------------------------------
InquiryFields == <<Bit1("cong", 1, 6), Bit1("rmb", 1, 7), F("version", 2, 1), G("response_data_format", 3, 3, 0), Bit1("hisup", 3, 4),
   Bit1("normaca", 3, 5), F("additional_length", 4, 1), Bit1("protect", 5, 0), Bit1("threepc", 5, 3), G("tpgs", 5, 5, 4), Bit1("acc", 5, 6),
   Bit1("sccs", 5, 7), Bit1("addr16", 6, 0), Bit1("multi_p", 6, 4), Bit1("enc_serv", 6, 6), Bit1("cmd_que", 7, 1), Bit1("sync", 7, 4),
   Bit1("wbus16", 7, 5)>>
InquiryExtra(x) ==                                        \* bytes 36 and up, as far as returned
    Rec(<<<<"vendor_specific_1", Raw(Cut(x, 20))>>>>
        \o (IF Len(x) < 21 THEN <<<<"ius", None>>, <<"qas", None>>, <<"clocking", None>>>>
            ELSE Nums(x, <<Bit1("ius", 20, 0), Bit1("qas", 20, 1), G("clocking", 20, 3, 2)>>))
        \o <<<<"version_descriptors", IF Len(x) < 24 THEN None
               ELSE Ls([i \in 1..Min2(8, (Len(x) - 22) \div 2) |-> I(Strip(Slice(x, 20 + 2 * i, 2)))])>>,
             <<"vendor_specific_2", IF Len(x) < 61 THEN None ELSE Raw(From(x, 60))>>>>)
Inquiry(b) ==
    LET add == At(b, 4)
        x == From(Cut(b, add + 5), 36)
    IN Rec(<<Peripheral(b)>> \o Nums(b, InquiryFields)
           \o <<Text(b, "t10_vendor_identification", 8, 8), Text(b, "product_identification", 16, 16), Text(b, "product_revision_level", 32, 4),
                <<"extended", IF add <= 31 THEN None ELSE IF Len(b) <= 36 THEN Or({None, InquiryExtra(<<>>)}) ELSE InquiryExtra(x)>>>>)

\* ---- designators (SPC-4 7.8.5) -------------------------------------------------------
DesignatorHead == <<G("code_set", 0, 3, 0), G("protocol_identifier", 0, 7, 4), G("designator_type", 1, 3, 0), G("association", 1, 5, 4),
   Bit1("piv", 1, 7), F("designator_length", 3, 1)>>
Eui8 == <<F("ieee_company", 4, 3), F("vendor_specific_extension_identifer", 7, 5)>>
Eui16 == <<F("identifier_extension", 4, 8), F("ieee_company", 12, 3), F("vendor_specific_extension_identifer", 15, 5)>>
Naa2 == <<<<"vendor_specific_identifier_a", <<<<4, 3, 0>>, <<5, 7, 0>>>>>>, F("ieee_company", 6, 3), F("vendor_specific_identifier_b", 9, 3)>>
Naa3 == <<<<"locally_administered_value", <<<<4, 3, 0>>>> \o BB(5, 7)>>>>
Naa5 == <<<<"ieee_company_id", <<<<4, 3, 0>>, <<5, 7, 0>>, <<6, 7, 0>>, <<7, 7, 4>>>>>>,
          <<"vendor_specific_identifier", <<<<7, 3, 0>>>> \o BB(8, 4)>>>>
Naa6 == Naa5 \o <<F("vendor_specific_identifier_extension", 12, 8)>>
Naa == <<G("naa", 4, 7, 4)>>
\* does the designator have a format the standard defines?
Known(b) == LET ty == At(b, 1) % 16
                n == At(b, 3)
            IN CASE ty = 2 -> n \in {8, 12, 16}
                 [] ty = 3 -> n >= 1 /\ LET k == At(b, 4) \div 16 IN (k \in {2, 3, 5} /\ n = 8) \/ (k = 6 /\ n = 16)
                 [] ty \in {4, 5, 6} -> n = 4
                 [] ty = 1 -> n >= 8
                 [] OTHER -> TRUE
DesignatorBody(b) ==
    LET ty == At(b, 1) % 16
        n == At(b, 3)
        id == Slice(b, 4, n)
    IN CASE ty = 0 -> <<<<"vendor_specific_identifier", Raw(id)>>>>
         [] ty = 1 -> <<Text(b, "t10_vendor_identification", 4, 8), <<"vendor_specific_identifier", Raw(Slice(b, 12, n - 8))>>>>
         [] ty = 2 -> Nums(b, IF n = 16 THEN Eui16 ELSE IF n = 12 THEN Append(Eui8, F("directory_id", 12, 4)) ELSE Eui8)
         [] ty = 3 -> LET k == At(b, 4) \div 16
                      IN Nums(b, Naa \o (IF k = 2 THEN Naa2 ELSE IF k = 3 THEN Naa3 ELSE IF k = 5 THEN Naa5 ELSE Naa6))
         [] ty = 4 -> Nums(b, <<F("relative_target_port_identifier", 6, 2)>>)
         [] ty = 5 -> Nums(b, <<F("target_port_group", 6, 2)>>)
         [] ty = 6 -> Nums(b, <<F("logical_unit_group", 6, 2)>>)
         [] ty = 7 -> <<<<"md5_logical_unit_identifier", Raw(id)>>>>
         [] ty = 8 -> <<<<"scsi_name_string", Raw(id)>>>>
         [] OTHER -> <<<<"designator", Raw(id)>>>>
Designator(b) == Rec(Nums(b, DesignatorHead) \o DesignatorBody(b))
Fits4(b) == Len(b) >= 4 /\ Len(b) >= 4 + At(b, 3)
RECURSIVE Designators(_)
Designators(b) == IF b = <<>> THEN <<>> ELSE <<Designator(b)>> \o Designators(From(b, 4 + At(b, 3)))
RECURSIVE WellFormed(_)                                   \* a list of whole designators of known formats
WellFormed(b) == b = <<>> \/ (Fits4(b) /\ Known(b) /\ WellFormed(From(b, 4 + At(b, 3))))

\* ---- vital product data (SPC-4 7.8, SBC-3 6.5, SAT-3 12.4.2) -----------------------------------
VpdHead(b) == <<Peripheral(b)>> \o Nums(b, <<F("page_code", 1, 1), F("page_length", 2, 2)>>)
PageLen(b) == U(b, 2, 2)
Body(b) == Slice(b, 4, PageLen(b))
Limits == <<Bit1("wsnz", 4, 0), F("maximum_compare_and_write_length", 5, 1), F("optimal_transfer_length_granularity", 6, 2),
   F("maximum_transfer_length", 8, 4), F("optimal_transfer_length", 12, 4), F("maximum_prefetch_xdread_xdwrite_transfer_length", 16, 4),
   F("maximum_unmap_lba_count", 20, 4), F("maximum_unmap_block_descriptor_count", 24, 4), F("optimal_unmap_granularity", 28, 4),
   Bit1("ugavalid", 32, 7), <<"unmap_granularity_alignment", <<<<32, 6, 0>>>> \o BB(33, 3)>>, F("maximum_write_same_length", 36, 8)>>
Provisioning == <<F("threshold_exponent", 4, 1), Bit1("dp", 5, 0), Bit1("anc_sup", 5, 1), Bit1("lbprz", 5, 2), Bit1("lbpws10", 5, 5),
   Bit1("lbpws", 5, 6), Bit1("lbpu", 5, 7), G("provisioning_type", 6, 2, 0)>>
Veritas == <<Bit1("is_thin_lun", 4, 0), Bit1("is_snapshot_lun", 4, 1), Bit1("is_space_optimized_src", 4, 2), Bit1("is_fcdisk_lun", 4, 3),
   Bit1("is_satadisk_lun", 4, 4), Bit1("is_replication_src", 4, 5), Bit1("is_replication_dst", 4, 6), F("raid_type", 5, 1)>>
Signature == <<F("transport_id", 36, 1), G("pm_port", 37, 3, 0), Bit1("interrupt", 37, 6), F("status", 38, 1), F("error", 39, 1),
   F("device", 43, 1), F("sector_count", 48, 2)>>
Words(b, w, n) == [i \in 1..(2 * n) |-> At(b, 60 + 2 * w + (IF i % 2 = 1 THEN i ELSE i - 2))]     \* words of text, low byte second
Ata(b) == <<Text(b, "sat_vendor_identification", 8, 8), Text(b, "sat_product_identification", 16, 16),
            Text(b, "sat_product_revision_level", 32, 4),
            <<"device_signature", Rec(Nums(b, Signature) \o <<<<"lba", T(Slice(b, 40, 3) \o Slice(b, 44, 3))>>>>)>>,
            <<"command_code", Sm(At(b, 56))>>,
            <<"identify_device", Rec(<<<<"serial_number", T(Words(b, 10, 10))>>, <<"firmware_revision", T(Words(b, 23, 4))>>,
                                       <<"model_number", T(Words(b, 27, 20))>>>>)>>>>
VpdBody(b, page) ==
    CASE page = 0 -> <<<<"vpd_parameters", U8s(Body(b))>>>>
      [] page = 128 -> <<<<"product_serial_number", T(Body(b))>>>>
      [] page = 131 -> <<<<"designators_list", Ls(Designators(Body(b)))>>>>
      [] page = 137 -> Ata(b)
      [] page = 176 -> Nums(b, Limits)
      [] page = 178 -> Nums(b, Provisioning)
                       \o <<<<"provisioning_group_descriptor",
                              IF Len(b) <= 8 THEN None                  \* it is returned only with a page that long
                              ELSE IF PageLen(b) > 4 /\ Fits4(From(b, 8)) THEN Designator(From(b, 8)) ELSE Unsaid>>>>
      [] page = 192 -> Nums(b, Veritas)
      [] OTHER -> <<<<"page_data", U8s(Body(b))>>>>
Vpd(page, b) == Rec(VpdHead(b) \o VpdBody(b, page))

\* ---- PERSISTENT RESERVE IN (SPC-4 6.15) ----------------------------------------------------------
PrHead(b) == Nums(b, <<F("pr_generation", 0, 4), F("additional_length", 4, 4)>>)
PrNeeds(b) == <<"required", I(Add(Strip(Slice(b, 4, 4)), <<8>>))>>
PrAll(b) == LessEq(Strip(Slice(b, 4, 4)), OfNat(Len(b) - 8))          \* all of it was returned
PrBody(b) == Slice(b, 8, U(b, 4, 4))
Capabilities == <<F("length", 0, 2), Bit1("persist_through_power_lost_capable", 2, 0), Bit1("all_target_ports_capable", 2, 2),
   Bit1("specify_initiator_ports_capable", 2, 3), Bit1("compatible_reservation_handling", 2, 4), Bit1("replace_lost_reservation_capable", 2, 7),
   Bit1("persist_through_power_lost_activates", 3, 0), G("allow_commands", 3, 6, 4), Bit1("type_mask_valid", 3, 7),
   Bit1("write_exclusive", 4, 1), Bit1("exclusive_access", 4, 3), Bit1("write_exclusive_registrants_only", 4, 5),
   Bit1("exclusive_access_registrants_only", 4, 6), Bit1("write_exclusive_all_registrants", 4, 7), Bit1("exclusive_access_all_registrants", 5, 0)>>
Registrant == <<F("reservation_key", 0, 8), Bit1("reservation_holder", 12, 0), Bit1("all_target_ports", 12, 1), G("pr_type", 13, 3, 0),
   G("scope", 13, 7, 4), F("relative_target_port_identifier", 18, 2), F("additional_length", 20, 4)>>
TransportId(b) == Rec(Nums(b, <<G("protocol_identifier", 0, 3, 0), G("format_code", 0, 7, 6)>>) \o <<<<"specific_data", Raw(From(b, 1))>>>>)
RECURSIVE Registrants(_)
Registrants(b) == IF b = <<>> THEN <<>>
                  ELSE <<Rec(Nums(b, Registrant) \o <<<<"transport_id", TransportId(Slice(b, 24, U(b, 20, 4)))>>>>)>>
                       \o Registrants(From(b, 24 + U(b, 20, 4)))
Held == <<F("reservation_key", 8, 8), G("pr_type", 21, 3, 0), G("scope", 21, 7, 4)>>
NotHeld == <<<<"reservation_key", Or({None, I(<<>>)})>>, <<"pr_type", Or({None, I(<<>>)})>>, <<"scope", Or({None, I(<<>>)})>>>>
PrIn(action, b) ==
    CASE action = 0 -> Rec(PrHead(b) \o <<PrNeeds(b), <<"key_list", IF ~PrAll(b) THEN None
                             ELSE Ls([i \in 1..(U(b, 4, 4) \div 8) |-> I(Strip(Slice(b, 8 * i, 8)))])>>>>)
      [] action = 1 -> Rec(PrHead(b) \o <<PrNeeds(b)>>
                           \o (IF Strip(Slice(b, 4, 4)) = <<>> THEN NotHeld
                               ELSE <<<<"reservation_key", IF Len(b) >= 16 THEN Num(b, Held[1]) ELSE None>>,
                                      <<"pr_type", IF Len(b) >= 22 THEN Num(b, Held[2]) ELSE None>>,
                                      <<"scope", IF Len(b) >= 22 THEN Num(b, Held[3]) ELSE None>>>>))
      [] action = 2 -> Rec(Nums(b, Capabilities) \o <<<<"required", Sm(8)>>>>)
      [] action = 3 -> Rec(PrHead(b) \o <<PrNeeds(b), <<"full_status_descriptors",
                             IF ~PrAll(b) THEN None ELSE IF PrBody(b) = <<>> THEN Or({None, Ls(<<>>)}) ELSE Ls(Registrants(PrBody(b)))>>>>)

\* ---- PERSISTENT RESERVE OUT parameter lists (SPC-4 6.16.3, 6.16.4) -----------------------------------
PrOutKeys == <<F("reservation_key", 0, 8), F("service_action_reservation_key", 8, 8)>>
PrOut(action, b) ==
    IF action = 7 THEN Rec(Nums(b, PrOutKeys \o <<Bit1("activate_persist_through_power_loss", 17, 0), Bit1("unregister", 17, 1),
                                                   F("relative_target_port_identifier", 18, 2), F("transport_id_length", 20, 4)>>)
                           \o <<<<"transport_id", TransportId(Slice(b, 24, U(b, 20, 4)))>>>>)
    ELSE Rec(Nums(b, PrOutKeys \o <<Bit1("activate_persist_through_power_loss", 20, 0), Bit1("all_target_ports", 20, 2), Bit1("specify_initiator_ports", 20, 3)>>))

\* ---- REPORT LUNS (SPC-4 6.33) ----------------------------------------------------------------------
Hex == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
HexDigits(v) == Concat([i \in DOMAIN v |-> <<Hex[1 + v[i] \div 16], Hex[1 + (v[i] % 16)]>>])
HexText(v) == <<48, 120>> \o (IF v = <<>> THEN <<48>> ELSE IF v[1] < 16 THEN Tail(HexDigits(v)) ELSE HexDigits(v))
Simple(l) == l[1] < 64 /\ \A i \in 3..8 : l[i] = 0         \* one level, peripheral or flat addressing method 00b
LunsOf(items) == Rec(<<<<"lun_list", Ls([i \in DOMAIN items |-> I(Strip(Cut(items[i], 2)))])>>,
                       <<"hex_lun_list", Ls([i \in DOMAIN items |-> T(HexText(Strip(items[i])))])>>>>)
Luns(alloc, allow, b) ==
    IF alloc < 16 THEN Or({Raw(b), Raw(Cut(b, alloc)), Error})
    ELSE IF Len(b) < 8 THEN Error
    ELSE LET n == Strip(Slice(b, 0, 4))
             all == LessEq(n, OfNat(Len(b) - 8))
             items == Chunks(IF all THEN Slice(b, 8, ToNat(n)) ELSE From(b, 8), 8)
             bad == ~allow /\ \E i \in DOMAIN items : ~Simple(items[i])
         IN IF bad THEN Error
            ELSE IF ~all THEN Or({Error, LunsOf(items)})
            ELSE LunsOf(items)

\* ---- REPORT TARGET PORT GROUPS (SPC-4 6.37) -----------------------------------------------------------
GroupFields == <<G("asymetric_access_state", 0, 3, 0), Bit1("pref", 0, 7), Bit1("ao_sup", 1, 0), Bit1("an_sup", 1, 1), Bit1("s_sup", 1, 2),
   Bit1("u_sup", 1, 3), Bit1("lbd_sup", 1, 4), Bit1("o_sup", 1, 6), Bit1("t_sup", 1, 7), F("target_port_group", 2, 2), F("status_code", 5, 1),
   F("target_port_count", 7, 1)>>
Port(b, i) == Rec(<<<<"relative_target_port_identifier", I(Strip(Slice(b, 4 + 4 * i + 2, 2)))>>>>)
GroupLen(b) == 8 + 4 * At(b, 7)
RECURSIVE Groups(_)                                        \* the groups all of which is there
Groups(b) == IF Len(b) < 8 \/ Len(b) < GroupLen(b) THEN <<>>
             ELSE <<Rec(Nums(b, GroupFields) \o <<<<"target_port_list", Ls([i \in 1..At(b, 7) |-> Port(b, i)])>>>>)>> \o Groups(From(b, GroupLen(b)))
\* and one that was cut off, as far as it is there
RECURSIVE Partial(_)
Partial(b) == IF b = <<>> \/ Len(b) < 8 THEN <<>>
              ELSE IF Len(b) >= GroupLen(b) THEN Partial(From(b, GroupLen(b)))
              ELSE <<Rec(Nums(b, GroupFields) \o <<<<"target_port_list", Ls([i \in 1..((Len(b) - 8) \div 4) |-> Port(b, i)])>>>>)>>
Rtpg(format, b) ==
    LET n == Strip(Slice(b, 0, 4))
        all == LessEq(n, OfNat(Len(b) - 4))
        start == IF format = 0 THEN 4 ELSE 8
        body == IF all THEN Slice(b, start, ToNat(n) + 4 - start) ELSE From(b, start)
        x == Rec(<<<<"data_length", I(n)>>, <<"descriptor_list", IF all THEN Ls(Groups(body)) ELSE Or({Ls(Groups(body)), Ls(Groups(body) \o Partial(body))})>>>>
                 \o (IF format = 1 THEN Nums(b, <<G("format_type", 4, 6, 4)>>) ELSE <<>>))
    IN IF all THEN x ELSE Or({Error, x})

\* ---- READ CAPACITY (SBC-3 5.15, 5.16) -----------------------------------------------------------------------
Cap10 == <<F("last_logical_block_address", 0, 4), F("block_length_in_bytes", 4, 4)>>
Cap16 == <<F("last_logical_block_address", 0, 8), F("block_length_in_bytes", 8, 4), Bit1("prot_en", 12, 0), G("p_type", 12, 3, 1),
   G("logical_blocks_per_physical_block", 13, 3, 0), G("p_i_exponent", 13, 7, 4), G("lowest_aligned_lba_msb", 14, 5, 0), Bit1("troz", 14, 6),
   Bit1("tpe", 14, 7), F("lowest_aligned_lba_lsb", 15, 1)>>
\* ---- RECEIVE COPY OPERATING PARAMETERS (SPC-4 6.22) ------------------------------------------------------------
CopyFields == <<F("available_data", 0, 4), Bit1("snlid", 4, 0), F("max_cscd_descriptor_count", 8, 2), F("max_segment_descriptor_count", 10, 2),
   F("max_descriptor_list_length", 12, 4), F("max_segment_length", 16, 4), F("max_inline_data_length", 20, 4), F("held_data_limit", 24, 4),
   F("max_stream_device_transfer_size", 28, 4), F("total_concurrent_copies", 34, 2), F("max_concurrent_copies", 36, 1),
   F("data_segment_granularity", 37, 1), F("inline_data_granularity", 38, 1), F("held_data_granularity", 39, 1),
   F("implemented_descriptor_list_length", 43, 1)>>
Copy(b) == Rec(Nums(b, CopyFields) \o <<<<"implemented_descriptor_list", U8s(Slice(b, 44, At(b, 43)))>>>>)

\* ---- enclosure services (SES-3 6.1, 7.3) --------------------------------------------------------------------
EnclosureFields == <<G("enclosure_services_processes_num", 0, 2, 0), G("relative_enclosure_services_process_identifier", 0, 6, 4),
   F("subenclosure_identifier", 1, 1), F("type_descriptor_headers_num", 2, 1), F("enclosure_descriptor_length", 3, 1)>>
Enclosure(b) == Rec(Nums(b, EnclosureFields)
   \o <<<<"enclosure_logical_identifier", Raw(Slice(b, 4, 8))>>, Text(b, "enclosure_vendor_identification", 12, 8),
        Text(b, "product_identification", 20, 16), Text(b, "product_revision_level", 36, 4),
        <<"vendor_specific_enclosure_information", Raw(Slice(b, 40, At(b, 3) - 36))>>>>)
RECURSIVE Enclosures(_, _)
Enclosures(b, n) == IF n = 0 THEN <<>> ELSE <<Cut(b, 4 + At(b, 3))>> \o Enclosures(From(b, 4 + At(b, 3)), n - 1)
RECURSIVE SumLen(_)
SumLen(s) == IF s = <<>> THEN 0 ELSE Len(Head(s)) + SumLen(Tail(s))
RECURSIVE SumTypes(_)
SumTypes(s) == IF s = <<>> THEN 0 ELSE At(Head(s), 2) + SumTypes(Tail(s))
EnclosuresIn(b) == Enclosures(From(b, 8), At(b, 1) + 1)
TypesIn(b) == LET es == EnclosuresIn(b) IN Chunks(Slice(b, 8 + SumLen(es), 4 * SumTypes(es)), 4)
TypeFields == <<F("element_type", 0, 1), F("possible_elements_num", 1, 1), F("subenclosure_identifier", 2, 1), F("type_descriptor_text_length", 3, 1)>>
RECURSIVE Texts(_, _)
Texts(b, types) == IF types = <<>> THEN <<>> ELSE <<Raw(Cut(b, At(Head(types), 3)))>> \o Texts(From(b, At(Head(types), 3)), Tail(types))
Configuration(b) ==
    LET es == EnclosuresIn(b)
        ts == TypesIn(b)
    IN Rec(Nums(b, <<F("page_code", 0, 1), F("secondary_subenclosures_num", 1, 1), F("page_length", 2, 2), F("generation_code", 4, 4)>>)
           \o <<<<"enclosure_descriptor_list", Ls([i \in DOMAIN es |-> Enclosure(es[i])])>>,
                <<"type_descriptor_header_list", Ls([i \in DOMAIN ts |-> Rec(Nums(ts[i], TypeFields))])>>,
                <<"type_descriptor_text_list", LET x == Texts(From(b, 8 + SumLen(es) + 4 * Len(ts)), ts)       \* empty ones at the end may be left out
                                               IN Or({Ls(SubSeq(x, 1, k)) : k \in {k \in 0..Len(x) : \A i \in (k + 1)..Len(x) : x[i].v = <<>>}})>>>>)
Id == Bit1("ident", 1, 7)
Failed == Bit1("fail", 1, 6)
Report == Bit1("report", 2, 0)
SlotTail == <<Report, Bit1("ident", 2, 1), Bit1("rmv", 2, 2), Bit1("ready_insert", 2, 3), Bit1("encl_bypassed_b", 2, 4), Bit1("encl_bypassed_a", 2, 5),
   Bit1("do_not_remove", 2, 6), Bit1("app_client_bypassed_a", 2, 7), Bit1("device_bypassed_b", 3, 0), Bit1("device_bypassed_a", 3, 1),
   Bit1("bypassed_b", 3, 2), Bit1("bypassed_a", 3, 3), Bit1("device_off", 3, 4), Bit1("fault_reqstd", 3, 5), Bit1("fault_sensed", 3, 6),
   Bit1("app_client_bypassed_b", 3, 7)>>
ElementFields(type) ==                                     \* of the whole 4 byte element
    CASE type = 1 -> <<F("slot_address", 1, 1)>> \o SlotTail
      [] type = 2 -> <<Id, Bit1("dc_over_current", 2, 1), Bit1("dc_under_voltage", 2, 2), Bit1("dc_over_voltage", 2, 3), Bit1("dc_fail", 3, 0),
                       Bit1("ac_fail", 3, 1), Bit1("temp_warn", 3, 2), Bit1("overtmp_fail", 3, 3), Bit1("off", 3, 4), Bit1("reqstd_on", 3, 5),
                       Bit1("fail", 3, 6), Bit1("hot_swap", 3, 7)>>
      [] type = 3 -> <<<<"fan_speed", <<<<1, 2, 0>>, <<2, 7, 0>>>>>>, Id, G("speed_code", 3, 2, 0), Bit1("off", 3, 4), Bit1("reqstd_on", 3, 5),
                       Bit1("fail", 3, 6), Bit1("hot_swap", 3, 7)>>
      [] type = 4 -> <<Failed, Id, F("temperature", 2, 1), Bit1("ut_warn", 3, 0), Bit1("ut_fail", 3, 1), Bit1("ot_warn", 3, 2), Bit1("ot_fail", 3, 3)>>
      [] type = 5 -> <<Failed, Id, Bit1("unlocked", 3, 0), Bit1("door_open", 3, 1)>>
      [] type = 6 -> <<Failed, Id, Bit1("tui_unrecov", 3, 0), Bit1("tui_crit", 3, 1), Bit1("tui_non_crit", 3, 2), Bit1("tui_info", 3, 3),
                       Bit1("remind", 3, 4), Bit1("muted", 3, 6), Bit1("rqst_mute", 3, 7)>>
      [] type = 7 -> <<Failed, Id, Report, Bit1("hot_swap", 3, 7)>>
      [] type = 8 -> <<Failed, Id, Report>>
      [] type = 9 -> <<G("size_mult", 1, 1, 0), Failed, Id, F("cache_size", 2, 2)>>
      [] type = 10 -> <<G("invop_type", 1, 7, 6), F("invop_bytes", 2, 2)>>
      [] type = 11 -> <<F("battery_status", 1, 1), Bit1("intf_fail", 2, 0), Bit1("warn", 2, 1), Bit1("ups_fail", 2, 2), Bit1("dc_fail", 2, 3),
                        Bit1("ac_fail", 2, 4), Bit1("ac_qual", 2, 5), Bit1("ac_hi", 2, 6), Bit1("ac_low", 2, 7), Bit1("bpf", 3, 0), Bit1("batt_fail", 3, 1),
                        Bit1("fail", 3, 6), Bit1("ident", 3, 7)>>
      [] type = 12 -> <<G("display_mode_status", 1, 1, 0), Failed, Id, F("display_char_status", 2, 2)>>
      [] type = 13 -> <<Failed, Id>>
      [] type = 14 -> <<Id, Bit1("warn_indication", 2, 0), Bit1("failure_indication", 2, 1), G("time_until_power_cycle", 2, 7, 2),
                        Bit1("warn_requested", 3, 0), Bit1("failure_requested", 3, 1), G("requested_power_off_duration", 3, 7, 2)>>
      [] type = 15 -> <<Failed, Id, Report, Bit1("xmit_fail", 3, 0), Bit1("lol", 3, 1), Bit1("disabled", 3, 4)>>
      [] type = 16 -> <<Id, F("language_code", 2, 2)>>
      [] type = 17 -> <<Failed, Id, Bit1("disabled", 3, 0)>>
      [] type = 18 -> <<Bit1("crit_under", 1, 0), Bit1("crit_over", 1, 1), Bit1("warn_under", 1, 2), Bit1("warn_over", 1, 3), Failed, Id>>
      [] type = 19 -> <<Bit1("crit_over", 1, 1), Bit1("warn_over", 1, 3), Failed, Id>>
      [] type = 20 -> <<Failed, Id, Report, Bit1("enabled", 3, 0)>>
      [] type = 21 -> <<Failed, Id, Report, Bit1("enabled", 3, 0)>>
      [] type = 22 -> <<Failed, Id, F("short_enclosure_status", 3, 1)>>
      [] type = 23 -> <<Bit1("rr_abort", 1, 0), Bit1("rebuild_remap", 1, 1), Bit1("in_failed_array", 1, 2), Bit1("in_crit_array", 1, 3),
                        Bit1("cons_chk", 1, 4), Bit1("hot_spare", 1, 5), Bit1("rsvd_device", 1, 6), Bit1("ok", 1, 7)>> \o SlotTail
      [] type = 24 -> <<Failed, Id>>
      [] type = 25 -> <<G("connector_type", 1, 6, 0), Id, F("connector_phys_link", 2, 1), Bit1("fail", 3, 6)>>
      [] OTHER -> <<>>
Signed16(b) == LET v == 256 * b[1] + b[2]
               IN IF v < 32768 THEN Sm(v) ELSE [t |-> "n", v |-> OfNat(65536 - v)]
ElementInfo(b, type) ==
    IF type = 18 THEN Rec(Nums(b, ElementFields(18)) \o <<<<"voltage", Signed16(Slice(b, 2, 2))>>>>)
    ELSE IF type = 19 THEN Rec(Nums(b, ElementFields(19)) \o <<<<"current", Signed16(Slice(b, 2, 2))>>>>)
    ELSE IF ElementFields(type) = <<>> THEN Rec(<<<<"general", U8s(Slice(b, 1, 3))>>>>)
    ELSE Rec(Nums(b, ElementFields(type)))
ElementHead == <<G("element_status_code", 0, 3, 0), Bit1("swap", 0, 4), Bit1("disabled", 0, 5), Bit1("prdfail", 0, 6)>>
Element(b, type) == Rec(Nums(b, ElementHead) \o <<<<"status_info", ElementInfo(b, type)>>>>)
\* the overall element is left undecoded
RECURSIVE Statuses(_, _)
Statuses(b, types) ==
    IF types = <<>> THEN <<>>
    ELSE LET n == At(Head(types), 1)
         IN <<Rec(<<<<"overall_element", Element(b, 0)>>,
                    <<"individual_elements", Ls([i \in 1..n |-> Element(Slice(b, 4 * i, 4), At(Head(types), 0))])>>>>)>>
            \o Statuses(From(b, 4 + 4 * n), Tail(types))
StatusFields == <<F("page_code", 0, 1), Bit1("unrecov", 1, 0), Bit1("crit", 1, 1), Bit1("non_crit", 1, 2), Bit1("info", 1, 3), Bit1("invop", 1, 4),
   F("page_length", 2, 2), F("generation_code", 4, 4)>>
RECURSIVE Descs(_, _)                                      \* n descriptors in a row, and what is left
Descs(b, n) == IF n = 0 THEN <<<<>>, b>>
               ELSE LET k == U(b, 2, 2)
                        r == Descs(From(b, 4 + k), n - 1)
                    IN <<<<Rec(<<<<"descriptor_length", Sm(k)>>, <<"descriptor", Raw(Slice(b, 4, k))>>>>)>> \o r[1], r[2]>>
RECURSIVE Elements7(_, _)
Elements7(b, types) ==
    IF types = <<>> THEN <<>>
    ELSE LET r == Descs(b, 1 + At(Head(types), 1))
         IN <<Rec(<<<<"overall_element", r[1][1]>>, <<"individual_elements", Ls(Tail(r[1]))>>>>)>> \o Elements7(r[2], Tail(types))
Ses(page, conf, b) ==
    CASE page = 0 -> Rec(Nums(b, <<F("page_code", 0, 1), F("page_length", 2, 2)>>)
                         \o <<<<"supported_pages", IF PageLen(b) = 0 THEN Unsaid ELSE U8s(Body(b))>>>>)
      [] page = 1 -> Configuration(b)
      [] page = 2 -> Rec(Nums(b, StatusFields) \o <<<<"status_descriptors", Ls(Statuses(From(b, 8), TypesIn(conf)))>>>>)
      [] page = 7 -> Rec(Nums(b, <<F("page_code", 0, 1), F("page_length", 2, 2), F("generation_code", 4, 4)>>)
                         \o <<<<"element_descriptors", Ls(Elements7(From(b, 8), TypesIn(conf)))>>>>)
      [] OTHER -> Rec(Nums(b, <<F("page_code", 0, 1), F("page_length", 2, 2)>>)
                      \o <<<<IF page = 128 THEN "vendor_specific" ELSE "page_data", U8s(Body(b))>>>>)

\* whole descriptors, nothing left over
RECURSIVE PrWell(_)
PrWell(b) == b = <<>> \/ (Len(b) >= 25 /\ Small(Strip(Slice(b, 20, 4))) /\ U(b, 20, 4) >= 1 /\ Len(b) >= 24 + U(b, 20, 4) /\ PrWell(From(b, 24 + U(b, 20, 4))))
RECURSIVE GroupsWell(_)
GroupsWell(b) == b = <<>> \/ (Len(b) >= 8 /\ Len(b) >= GroupLen(b) /\ GroupsWell(From(b, GroupLen(b))))
RtpgWell(format, b) ==
    LET n == Strip(Slice(b, 0, 4))
        start == IF format = 0 THEN 4 ELSE 8
    IN /\ ~Less(n, OfNat(start - 4))
       /\ LessEq(n, OfNat(Len(b) - 4)) => GroupsWell(Slice(b, start, ToNat(n) + 4 - start))
\* ================================ everything =====================================
Value(kind, par, b) ==
    CASE kind = "inquiry" -> Inquiry(b)
      [] kind = "vpd" -> Vpd(par.page, b)
      [] kind = "prin" -> PrIn(par.action, b)
      [] kind = "luns" -> Luns(par.alloc, par.allow, b)
      [] kind = "rtpg" -> Rtpg(par.format, b)
      [] kind = "cap10" -> Rec(Nums(b, Cap10))
      [] kind = "cap16" -> Rec(Nums(b, Cap16))
      [] kind = "copy" -> Copy(b)
      [] kind = "ses" -> Ses(par.page, par.conf, b)
      [] kind = "designator" -> Designator(b)
      [] kind = "transportid" -> TransportId(b)
      [] kind = "prout" -> PrOut(par.action, b)
\* Does the answer have the form the standard gives it?  Of other answers nothing is said.
Enough(kind, par, b) ==
    CASE kind = "inquiry" -> Len(b) >= 36
      [] kind = "vpd" -> /\ Len(b) >= 4
                         /\ par.page = 131 => (Len(b) >= 4 + PageLen(b) /\ WellFormed(Body(b)))
                         /\ par.page = 128 => Len(b) >= 4 + PageLen(b)
                         /\ par.page = 137 => Len(b) >= 572
                         /\ par.page = 176 => Len(b) >= 44
                         /\ par.page = 178 => Len(b) >= 8 /\ Len(b) \notin 9..11 /\ (Len(b) > 8 /\ PageLen(b) > 4 => Fits4(From(b, 8)) /\ Known(From(b, 8)))
                                              /\ (Len(b) > 8 /\ PageLen(b) <= 4 => \A i \in 9..Len(b) : b[i] = 0)
                         /\ par.page = 192 => Len(b) >= 6
      [] kind = "prin" -> /\ Len(b) >= 8
                          /\ par.action = 3 /\ PrAll(b) => PrWell(PrBody(b))
                          /\ par.action = 1 /\ Strip(Slice(b, 4, 4)) = <<>> => \A i \in 9..Len(b) : b[i] = 0
      [] kind = "luns" -> TRUE
      [] kind = "rtpg" -> Len(b) >= 4 * (1 + par.format) /\ RtpgWell(par.format, b)
      [] kind = "cap10" -> Len(b) >= 8
      [] kind = "cap16" -> Len(b) >= 32
      [] kind = "copy" -> Len(b) >= 44 /\ Len(b) >= 44 + At(b, 43)
      [] kind = "ses" -> Len(b) >= 4 /\ (par.page \in {1, 2, 7} => Len(b) >= 4 + PageLen(b) /\ Len(b) >= 8)
      [] OTHER -> TRUE

\* ================================ conformance ====================================
\* How much of its answer the library's own command for it asks for, at the least
Reach(kind, par) == CASE kind = "vpd" -> IF par.page \in {0, 128, 131, 176, 178, 192} THEN 252 ELSE IF par.page = 137 THEN 1024 ELSE 2048
                      [] kind = "ses" -> IF par.page \in {1, 2, 7} THEN 65535 ELSE IF par.page \in {0, 128} THEN 255 ELSE 2048
                      [] kind = "inquiry" -> 36
                      [] kind = "prin" -> 520
                      [] kind \in {"luns", "rtpg"} -> 16384
                      [] kind = "cap10" -> 8
                      [] kind = "cap16" -> 32
                      [] OTHER -> 0
(* page: all the device has to say; n: how much of it was asked for (0: it was decoded directly); default: the library
   decided how much that is.  Some platforms return the buffer as long as it was asked for, zeros after the answer.   *)
Given(e) == IF e.n = 0 \/ (e.default /\ Len(e.page) <= Reach(e.kind, e.par)) THEN e.page ELSE Cut(e.page, e.n)
Padded(e) == LET b == Given(e) IN IF e.n > Len(b) THEN b \o Zeros(e.n - Len(b)) ELSE b
DecodeFails(e) ==
    LET b == Given(e)
        p == Padded(e)
        d == IF Enough(e.kind, e.par, b) THEN Diff(Value(e.kind, e.par, b), e.out, e.kind) ELSE {}
    IN IF d = {} \/ p = b THEN d
       ELSE IF Enough(e.kind, e.par, p) THEN (IF Diff(Value(e.kind, e.par, p), e.out, e.kind) = {} THEN {} ELSE d) ELSE {}
(* A structure with the given values was packed, and unpacked again into out.  Lengths that follow from the other values
   are not among the given.                                                                                            *)
RECURSIVE Restrict(_, _)
Restrict(x, g) == IF x.t # "o" \/ g.t # "o" THEN x
                  ELSE [t |-> "o", v |-> [f \in DOMAIN x.v \cap DOMAIN g.v |-> Restrict(x.v[f], g.v[f])]]
Lengths(kind, par, b) ==
    CASE kind = "inquiry" -> At(b, 4) = Len(b) - 5
      [] kind = "designator" -> At(b, 3) = Len(b) - 4
      [] kind = "vpd" -> par.page \in {0, 131, 137, 176, 178, 192} \/ PageLen(b) = Len(b) - 4
      [] kind = "copy" -> At(b, 43) = Len(b) - 44
      [] kind = "prout" -> par.action = 7 => U(b, 20, 4) = Len(b) - 24
      [] OTHER -> TRUE
Whole1(kind, par, b) ==                                     \* all of the structure is there
    CASE kind = "designator" -> Fits4(b) /\ Known(b)
      [] kind = "transportid" -> Len(b) >= 1
      [] kind = "prout" -> IF par.action = 7 THEN Len(b) >= 25 ELSE Len(b) = 24
      [] OTHER -> Enough(kind, par, b)
PackFails(e) ==
    IF ~Whole1(e.kind, e.par, e.packed) THEN {"incomplete"}
    ELSE LET x == Value(e.kind, e.par, e.packed)
         IN Diff(Restrict(x, e.given), e.given, "packed") \cup Diff(x, e.out, "unpacked") \cup If(Lengths(e.kind, e.par, e.packed), "length field")
=============================================================================
