-------------------------------- MODULE Names --------------------------------
(* What errors say (C34), and the codes and names the library publishes (C35).

   An error is a text; the harness also gives what it says about codes: e.said is a sequence of [h, code, name], h being the heading
   nearest to the code ("status", "driver", "host", "reason", "request", "adapter", "validity", "argument", "error") and name the
   symbol in front of it, if any; and e.words, the upper case words of the text.  How the text is worded is not prescribed. *)
EXTENDS Sense

\* -- symbols of the operating systems' status fields: <<code, symbol>> -----------
StatusSymbols == {<<0, "SCSI_STATUS_GOOD">>, <<2, "SCSI_STATUS_CHECK_CONDITION">>, <<4, "SCSI_STATUS_CONDITION_MET">>, <<8, "SCSI_STATUS_BUSY">>,
                 <<24, "SCSI_STATUS_RESERVATION_CONFLICT">>, <<40, "SCSI_STATUS_TASK_SET_FULL">>, <<48, "SCSI_STATUS_ACA_ACTIVE">>,
                 <<64, "SCSI_STATUS_TASK_ABORTED">>}
DriverSymbols == {<<0, "SG_ERR_DRIVER_OK">>, <<1, "SG_ERR_DRIVER_BUSY">>, <<2, "SG_ERR_DRIVER_SOFT">>, <<3, "SG_ERR_DRIVER_MEDIA">>,
                   <<4, "SG_ERR_DRIVER_ERROR">>, <<5, "SG_ERR_DRIVER_INVALID">>, <<6, "SG_ERR_DRIVER_TIMEOUT">>, <<7, "SG_ERR_DRIVER_HARD">>,
                   <<8, "SG_ERR_DRIVER_SENSE">>, <<16, "SG_ERR_SUGGEST_RETRY">>, <<32, "SG_ERR_SUGGEST_ABORT">>, <<48, "SG_ERR_SUGGEST_REMAP">>,
                   <<64, "SG_ERR_SUGGEST_DIE">>, <<128, "SG_ERR_SUGGEST_SENSE">>}
HostSymbols == {<<0, "SG_ERR_DID_OK">>, <<1, "SG_ERR_DID_NO_CONNECT">>, <<2, "SG_ERR_DID_BUS_BUSY">>, <<3, "SG_ERR_DID_TIME_OUT">>,
                 <<4, "SG_ERR_DID_BAD_TARGET">>, <<5, "SG_ERR_DID_ABORT">>, <<6, "SG_ERR_DID_PARITY">>, <<7, "SG_ERR_DID_ERROR">>,
                 <<8, "SG_ERR_DID_RESET">>, <<9, "SG_ERR_DID_BAD_INTR">>, <<10, "SG_ERR_DID_PASSTHROUGH">>, <<11, "SG_ERR_DID_SOFT_ERROR">>}
ValiditySymbols == {<<1, "SC_SCSI_ERROR">>, <<2, "SC_ADAPTER_ERROR">>}
AdapterSymbols == {<<1, "SCSI_HOST_IO_BUS_ERR">>, <<2, "SCSI_TRANSPORT_FAULT">>, <<3, "SCSI_CMD_TIMEOUT">>, <<4, "SCSI_NO_DEVICE_RESPONSE">>,
                    <<5, "SCSI_ADAPTER_HDW_FAILURE">>, <<6, "SCSI_ADAPTER_SFW_FAILURE">>, <<7, "SCSI_WW_NAME_CHANGE">>,
                    <<8, "SCSI_FUSE_OR_TERMINAL_PWR">>, <<9, "SCSI_TRANSPORT_RESET">>, <<10, "SCSI_TRANSPORT_BUSY">>, <<11, "SCSI_TRANSPORT_DEAD">>,
                    <<12, "SCSI_VERIFY_DEVICE">>, <<13, "SCSI_TRANSPORT_MIGRATED">>, <<14, "SCSI_ERROR_NO_RETRY">>, <<15, "SCSI_ERROR_DELAY_LOG">>}
ArgumentSymbols == {<<1, "SC_PASSTHRU_INV_VERS">>, <<9, "SC_PASSTHRU_INV_Q_TAG_MSG">>, <<10, "SC_PASSTHRU_INV_FLAGS">>, <<11, "SC_PASSTHRU_INV_DEVFLAGS">>,
              <<12, "SC_PASSTHRU_INV_Q_FLAGS">>, <<13, "SC_PASSTHRU_INV_CDB_LEN">>, <<15, "SC_PASSTHRU_INV_AS_LEN">>, <<16, "SC_PASSTHRU_INV_CDB">>,
              <<17, "SC_PASSTHRU_INV_TO">>, <<18, "SC_PASSTHRU_INV_D_LEN">>, <<19, "SC_PASSTHRU_INV_SID">>, <<20, "SC_PASSTHRU_INV_LUN">>,
              <<21, "SC_PASSTHRU_INV_BUFF">>, <<22, "SC_PASSTHRU_INV_AS_BUFF">>, <<23, "SC_PASSTHRU_INV_VAR_CDB_LEN">>, <<24, "SC_PASSTHRU_INV_VAR_CDB">>}
Symbols(h) == CASE h = "status" -> StatusSymbols [] h = "driver" -> DriverSymbols [] h = "host" -> HostSymbols
                [] h = "validity" -> ValiditySymbols [] h = "adapter" -> AdapterSymbols [] h = "argument" -> ArgumentSymbols [] OTHER -> {}
OneToOne(s) == \A x \in s, y \in s : (x[1] = y[1]) <=> (x[2] = y[2])
ASSUME \A h \in {"status", "driver", "host", "validity", "adapter", "argument"} : OneToOne(Symbols(h))

\* -- C34 ------------------------------------------------------------------------
OnLinux(p) == p \in {"linux", "linux_ioctl"}
OnAix(p) == p \in {"aix", "aix_libc"}
\* the codes that may be reported under a heading
Reported(p, a, h) ==
    CASE h = "status" -> {a.status}
      [] h = "driver" -> {a.driver, a.driver % 16}
      [] h = "host" -> {a.host}
      [] h = "reason" -> {a.reason}
      [] h = "request" -> {a.rqstatus}
      [] h = "adapter" -> {a.adapter}
      [] h = "validity" -> {a.validity}
      [] h = "argument" -> {a.einval}
      [] h = "error" -> {a.errno}
\* the heading under which the failure itself has to be reported
Culprit(p, a) ==
    CASE OnLinux(p) -> IF a.status # 0 THEN "status" ELSE IF a.driver % 16 # 0 THEN "driver" ELSE "host"
      [] p = "solaris" -> IF a.status # 0 THEN "status" ELSE IF a.reason # 0 THEN "reason" ELSE "request"
      [] OnAix(p) -> IF a.fails /\ a.einval # 0 THEN "argument" ELSE IF a.validity = 0 THEN "" ELSE IF a.validity = 1 THEN "status" ELSE IF a.validity = 2 THEN "adapter" ELSE "validity"
      [] p = "win32" -> IF a.fails THEN "error" ELSE "status"
Named(p) == OnLinux(p) \/ OnAix(p)         \* the others give numbers only
SaidFails(e, s) ==
    LET named == \E x \in Symbols(s.h) : x[1] = s.code
    IN  (IF s.code \in Reported(e.plat, e.ans, s.h) THEN {} ELSE {"a code is reported that is not the one of the " \o s.h}) \cup
        (IF s.name # "" /\ <<s.code, s.name>> \notin Symbols(s.h) THEN {"the " \o s.h \o " has the name of something else"} ELSE {}) \cup
        (IF Named(e.plat) /\ named /\ s.name = "" THEN {"the " \o s.h \o " is not named"} ELSE {})
ErrorFails(e) ==
    LET c == Culprit(e.plat, e.ans)
        codes == {e.said[i].code : i \in {j \in DOMAIN e.said : e.said[j].h = c}}
    IN  UNION {SaidFails(e, e.said[i]) : i \in DOMAIN e.said} \cup
        (IF c = "" \/ codes \cap Reported(e.plat, e.ans, c) # {} \/ (codes = {} /\ \E x \in Reported(e.plat, e.ans, c) : x \in Range(e.numbers))
         THEN {} ELSE {"what failed is not reported"}) \cup
        (IF ~(OnLinux(e.plat) /\ c = "driver" /\ codes # {}) THEN {}
         ELSE {"the driver status is not named" :
               x \in {y \in DriverSymbols : y[1] = e.ans.driver % 16 /\ ~\E i \in DOMAIN e.said : e.said[i].h = c /\ e.said[i].name = y[2]}}) \cup
        (IF e.number # -1 /\ ~(c = "error" /\ e.number = e.ans.errno) THEN {"another error number than the operating system's"} ELSE {})

\* a check condition: the bytes of the sense data, and its key and additional sense code if it can be decoded
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Hex(_)
Hex(b) == IF b = <<>> THEN <<>> ELSE <<HexDigit(At(b, 0) \div 16), HexDigit(At(b, 0) % 16)>> \o Hex(Tail(b))
Contains(text, s) == \E i \in 0..(Len(text) - Len(s)) : \A k \in 1..Len(s) : text[i + k] = s[k]
Names1(text, c, q, table, ranges, unknown) ==
    LET hit == table[c + 1][q + 1]
        r == {x \in Range(ranges) : x.code = c /\ q >= x.from}
        n == Len(text)
    IN IF Len(hit) > 0 THEN Contains(text, hit)
       ELSE IF r # {} THEN LET x == CHOOSE y \in r : TRUE
                               k == Len(x.prefix)
                           IN \E i \in 0..(n - k) : /\ \A j \in 1..k : text[i + j] = x.prefix[j]
                                                    /\ \E d \in Number(q) : Holds(SubSeq(text, i + k + 1, IF i + k + 12 > n THEN n ELSE i + k + 12), d)
       ELSE Contains(text, unknown)
SenseTextFails(e, table, ranges, unknown) ==
    LET b == e.sense
        fixed == Len(b) >= 18 /\ Fixed(b)
        descr == Len(b) >= 8 /\ Descriptor(b) /\ ~Malformed(b)
        key == IF fixed THEN BitsOf(At(b, 2), 3, 0) ELSE BitsOf(At(b, 1), 3, 0)
        at == IF fixed THEN 12 ELSE 2
    IN  (IF Contains(e.text, Hex(b)) THEN {} ELSE {"the sense data is not shown"}) \cup
        (IF (fixed \/ descr) /\ Keys[key + 1] \notin Range(e.words) THEN {"the sense key is not named"} ELSE {}) \cup
        (IF (fixed \/ descr) /\ ~Names1(e.text, At(b, at), At(b, at + 1), table, ranges, unknown)
         THEN {"the additional sense code is not named"} ELSE {})

\* -- C35: <<code, name in lower case>> --------------------------------------------
DeviceTypes ==
    <<"disk", "tape", "printer", "processor", "write once optical disk", "cd/dvd", "scanner", "optical memory device", "medium changer",
      "communications", "graphics [0xa]", "graphics [0xb]", "storage array controller", "enclosure services device",
      "simplified direct access device", "optical card reader/writer device", "bridge controller commands", "object based storage",
      "automation/driver interface", "security manager device", "zoned block commands">>
Table(t) ==
    CASE t = "device types" -> {<<i - 1, DeviceTypes[i]>> : i \in DOMAIN DeviceTypes} \cup
                               {<<30, "well known logical unit">>, <<31, "no physical device on this lu">>}
      [] t = "versions" -> {<<0, "no conformance claimed">>, <<1, "scsi-1">>, <<2, "scsi-2">>, <<3, "spc">>, <<4, "spc-2">>, <<5, "spc-3">>, <<6, "spc-4">>, <<7, "spc-5">>}
      [] t = "pages" -> {<<0, "supported vpd pages">>, <<128, "unit serial number">>, <<129, "implemented operating definitions (obsolete)">>,
                         <<130, "ascii implemented operating definition (obsolete)">>, <<131, "device identification">>,
                         <<132, "software interface identification">>, <<133, "management network addresses">>, <<134, "extended inquiry data">>,
                         <<135, "mode page policy">>, <<136, "scsi ports">>, <<137, "ata information">>, <<138, "power condition">>,
                         <<139, "device constituents">>, <<140, "cfa profile information">>, <<141, "power consumption">>, <<143, "third party copy">>,
                         <<144, "protocol-specific logical unit information">>, <<145, "protocol-specific port information">>, <<146, "scsi feature sets">>}
      [] t = "block limits pages" -> {<<0, "block limits (sbc2)">>, <<1, "sequential access device capabilities (ssc3)">>, <<17, "osd information (osd)">>}
      [] t = "characteristics pages" -> {<<0, "block device characteristics (sbc3)">>, <<13, "enclosure services device characteristics (ses4)">>, <<17, "security token (osd)">>}
      [] t = "provisioning pages" -> {<<0, "logical block provisioning (sbc3)">>, <<1, "tapealert supported flags (ssc3)">>}
      [] t = "code sets" -> {<<1, "binary">>, <<2, "ascii">>, <<3, "utf8">>}
      [] t = "designator types" -> {<<0, "vendor specific [0x0]">>, <<1, "t10 vendor identification">>, <<2, "eui-64 based">>, <<3, "naa">>,
                                    <<4, "relative target port">>, <<5, "target port group">>, <<6, "logical unit group">>,
                                    <<7, "md5 logical unit identifier">>, <<8, "scsi name string">>, <<9, "protocol specific port identifier">>,
                                    <<10, "uuid identifier">>, <<11, "reserved [0xb]">>, <<12, "reserved [0xc]">>, <<13, "reserved [0xd]">>,
                                    <<14, "reserved [0xe]">>, <<15, "reserved [0xf]">>}
      [] t = "associations" -> {<<0, "addressed logical unit">>, <<1, "target port">>, <<2, "target device that contains addressed lu">>}
      [] t = "elements" -> {<<0, "unspecified">>, <<1, "device slot">>, <<2, "power supply">>, <<3, "cooling">>, <<4, "temperature sensor">>, <<5, "door">>,
                            <<6, "audible alarm">>, <<7, "enclosure services controller electronics">>, <<8, "scc controller electronics">>,
                            <<9, "nonvolatile cache">>, <<10, "invalid operation reason">>, <<11, "uninterruptible power supply">>, <<12, "display">>,
                            <<13, "key pad entry">>, <<14, "enclosure">>, <<15, "scsi port/transceiver">>, <<16, "language">>,
                            <<17, "communication port">>, <<18, "voltage sensor">>, <<19, "current sensor">>, <<20, "scsi target port">>,
                            <<21, "scsi initiator port">>, <<22, "simple subenclosure">>, <<23, "array device slot">>, <<24, "sas expander">>,
                            <<25, "sas connector">>}
      [] t = "element statuses" -> {<<0, "unsupported">>, <<1, "ok">>, <<2, "critical">>, <<3, "noncritical">>, <<4, "unrecoverable">>, <<5, "not installed">>,
                                    <<6, "unknown">>, <<7, "not available">>, <<8, "no access">>}
      [] t = "fan speeds" -> {<<0, "cooling mechanism is stopped">>, <<1, "cooling mechanism is at its lowest speed">>,
                              <<2, "cooling mechanism is at its second lowest speed">>, <<3, "cooling mechanism is at its third lowest speed">>,
                              <<4, "cooling mechanism is at its intermediate speed">>, <<5, "cooling mechanism is at its third highest speed">>,
                              <<6, "cooling mechanism is at its second highest speed">>, <<7, "cooling mechanism is at its highest speed">>}
Tables == {"device types", "versions", "pages", "block limits pages", "characteristics pages", "provisioning pages", "code sets", "designator types",
           "associations", "elements", "element statuses", "fan speeds"}
ASSUME \A t \in Tables : OneToOne(Table(t))

\* the constants callers name codes by: <<name, value>>
Constants(g) ==
    CASE g = "PERSISTENT_RESERVE_OUT_SERVICE_ACTION_CODES" ->
            {<<"REGISTER", 0>>, <<"RESERVE", 1>>, <<"RELEASE", 2>>, <<"CLEAR", 3>>, <<"PREEMPT", 4>>, <<"PREEMPT_AND_ABORT", 5>>,
             <<"REGISTER_AND_IGNORE_EXISTING_KEY", 6>>, <<"REGISTER_AND_MOVE", 7>>, <<"REPLACE_LOST_RESERVATION", 8>>}
      [] g = "PERSISTENT_RESERVE_OUT_TYPES" ->
            {<<"WRITE_EXCLUSIVE", 1>>, <<"EXCLUSIVE_ACCESS", 3>>, <<"WRITE_EXCLUSIVE_REGISTRANTS_ONLY", 5>>, <<"EXCLUSIVE_ACCESS_REGISTRANTS_ONLY", 6>>,
             <<"WRITE_EXCLUSIVE_ALL_REGISTRANTS", 7>>, <<"EXCLUSIVE_ACCESS_ALL_REGISTRANTS", 8>>}
      [] g = "PERSISTENT_RESERVE_IN_SERVICE_ACTION_CODES" -> {<<"READ_KEYS", 0>>, <<"READ_RESERVATION", 1>>, <<"REPORT_CAPABILITIES", 2>>, <<"READ_FULL_STATUS", 3>>}
      [] g = "INQUIRY_PAGE" -> {<<"SUPPORTED_VPD_PAGES", 0>>, <<"UNIT_SERIAL_NUMBER", 128>>, <<"DEVICE_IDENTIFICATION", 131>>, <<"ATA_INFORMATION", 137>>,
                                <<"BLOCK_LIMITS", 176>>, <<"LOGICAL_BLOCK_PROVISIONING", 178>>, <<"VERITAS", 192>>}
      [] g = "DIAGNOSTIC_PAGE" -> {<<"SUPPORTED_PAGES", 0>>, <<"CONFIGURATION", 1>>, <<"ENCLOSURE_STATUS", 2>>, <<"ELEMENT_DESCRIPTOR", 7>>, <<"VENDOR_0X80", 128>>}
      [] g = "ELEMENT_TYPE" -> {<<"UNSPECIFIED", 0>>, <<"DEVICE_SLOT", 1>>, <<"POWER_SUPPLY", 2>>, <<"COOLING", 3>>, <<"TEMPERATURE_SENSOR", 4>>, <<"DOOR", 5>>,
                                <<"AUDIBLE_ALARM", 6>>, <<"ES_CONTROLLER", 7>>, <<"SCC_CONTROLLER", 8>>, <<"NONVOLATILE_CACHE", 9>>,
                                <<"INVALID_OPERATION_REASON", 10>>, <<"UNINTERRUPTIBLE_POWER_SUPPLY", 11>>, <<"DISPLAY", 12>>, <<"KEYPAD", 13>>,
                                <<"ENCLOSURE", 14>>, <<"SCSI_PORT_TRANSCEIVER", 15>>, <<"LANGUAGE", 16>>, <<"COMMUNICATION_PORT", 17>>,
                                <<"VOLTAGE_SENSOR", 18>>, <<"CURRENT_SENSOR", 19>>, <<"SCSI_TARGET_PORT", 20>>, <<"SCSI_INITIATOR_PORT", 21>>,
                                <<"SUBENCLOSURE", 22>>, <<"ARRAY_DEVICE_SLOT", 23>>, <<"SAS_EXPANDER", 24>>, <<"SAS_CONNECTOR", 25>>}
      [] g = "SCSI_STATUS_CODES" -> {<<x[2], x[1]>> : x \in StatusSymbols}
      [] g = "SCSI_SENSE_KEY" -> {<<Keys[i], i - 1>> : i \in DOMAIN Keys}
      [] g = "CDB_OPCODE" -> {<<"READ_6", 8>>, <<"READ_10", 40>>, <<"READ_12", 168>>, <<"READ_16", 136>>, <<"WRITE_6", 10>>, <<"WRITE_10", 42>>,
                              <<"WRITE_12", 170>>, <<"WRITE_16", 138>>, <<"WRITE_SAME_10", 65>>, <<"WRITE_SAME_16", 147>>, <<"COMPARE_AND_WRITE", 137>>,
                              <<"UNMAP", 66>>, <<"RESERVE_6", 22>>, <<"RESERVE_10", 86>>, <<"RELEASE_6", 23>>, <<"RELEASE_10", 87>>,
                              <<"PERSISTENT_RESERVE_IN", 94>>, <<"PERSISTENT_RESERVE_OUT", 95>>, <<"INQUIRY", 18>>, <<"READCAPACITY_10", 37>>,
                              <<"READCAPACITY_16", 158>>}
Groups == {"PERSISTENT_RESERVE_OUT_SERVICE_ACTION_CODES", "PERSISTENT_RESERVE_OUT_TYPES", "PERSISTENT_RESERVE_IN_SERVICE_ACTION_CODES", "INQUIRY_PAGE",
           "DIAGNOSTIC_PAGE", "ELEMENT_TYPE", "SCSI_STATUS_CODES", "SCSI_SENSE_KEY", "CDB_OPCODE"}
\* one table or group as the library has it: entries is a sequence of <<code, name>> or <<name, value>>; it may have more than these
TableFails(e) ==
    LET has == {<<x[1], x[2]>> : x \in Range(e.entries)}
    IN  {"a code of the " \o e.name \o " has lost its name or has another one" : x \in {y \in Table(e.name) : y \notin has}} \cup
        {"a name of the " \o e.name \o " belongs to another code" : x \in {y \in has : \E z \in Table(e.name) : z[2] = y[2] /\ z[1] # y[1]}}
GroupFails(e) ==
    LET has == {<<x[1], x[2]>> : x \in Range(e.entries)}
    IN  {"a constant of " \o e.name \o " has another value" : x \in {y \in has : \E z \in Constants(e.name) : z[1] = y[1] /\ z[2] # y[2]}} \cup
        {"a constant of " \o e.name \o " is missing" : x \in {y \in Constants(e.name) : ~\E z \in has : z[1] = y[1]}}
=============================================================================
