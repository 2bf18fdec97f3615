"""Writes /verif/properties.jsonl (the list is kept here because jsonl is hard to edit)."""
import json, os
A = "src/infi/asi/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[A + f for f in files],
                               mechanism=[dict(name=n, where=A + w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=A + w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))

PEND = [("pending_packets", "requests sent and not answered yet, by packet id", "__init__.py CommandExecuterBase")]
p("C01", "Every response reaches exactly the request it answers",
  "Whatever the order in which a device answers the requests in its queue, the data or error of each answer is delivered to the callback (or the caller) of the request carrying the same packet id, exactly once and unaltered, and no other callback runs. Two requests that are pending at the same time never carry the same packet id. The memory the operating system was given for a request stays that request's until it has been answered. An answer that matches no pending request raises an internal error and disturbs no pending request.",
  ["schedules", "histories"], "every interleaving of sends, calls, waits and answers, every queue size, every order of answers, on every platform's executer; operations start from the top level, from callbacks, and from other greenlets that run when a request was just submitted",
  "The tests send one command at a time and answer it at once; which request an answer is routed to depends on the interleaving and on how ids were allocated before it.",
  ["__init__.py", "linux.py", "win32.py", "solaris.py", "aix.py"],
  [("packet id allocation", "__init__.py CommandExecuterBase._next_packet_index"), ("routing of a response", "__init__.py CommandExecuterBase._process_pending_response"), ("data buffer of the request", "linux.py LinuxCommandExecuter._handle_raw_response")], PEND,
  ["bytes written to and read from the device", "callbacks, results and exceptions of send/call/wait"])
p("C02", "The request queue is bounded and its bookkeeping survives failures",
  "At most max_queue_size requests are ever pending; sending one more raises the queue-full error, hands nothing to the device and leaves the pending requests as they were, while any request sent when the queue is not full is accepted. A request whose submission to the OS fails raises that failure to the sender and is not pending afterwards, so its place can be used again.",
  ["schedules", "histories", "fault_sequences"], "every history of sends, answers and submission failures, every queue size",
  "No test fills the queue, fails a submission or goes round the packet id space; the bug needs a certain pattern of free and used ids.",
  ["__init__.py"],
  [("capacity test and id allocation", "__init__.py CommandExecuterBase._next_packet_index"), ("removal after a failed submission", "__init__.py CommandExecuterBase.send")], PEND,
  ["send/is_queue_full results", "bytes handed to the device"])
p("C03", "wait() drains the queue; callbacks are optional",
  "wait() returns only once every request that was pending, and every one that callbacks sent meanwhile, has been answered, having run each of their callbacks exactly once, reads nothing more from the device than those answers, and reads nothing at all when the queue is empty. A request sent without a callback is completed silently. Waiting for the result of one call also delivers the answers of the other requests that arrive before it.",
  ["schedules", "histories"], "every mix of requests with and without callbacks, answered in every order; operations nest in callbacks and in other greenlets that run when a request was just submitted (one greenlet at a time reads the device)",
  "The tests use neither wait() nor a send without callback with more than one request outstanding.",
  ["__init__.py", "linux.py", "win32.py", "solaris.py", "aix.py"],
  [("drain loop", "__init__.py CommandExecuterBase.wait"), ("call loop", "__init__.py CommandExecuterBase.call"), ("one response", "__init__.py CommandExecuterBase._process_pending_response")], PEND,
  ["callbacks", "reads from the device"])
p("C04", "A failing request fails alone",
  "When a request is answered with an error, only that request fails: the error, an exception object of its own, is delivered to its callback (data None, the exception) or raised from its call, every other pending request stays pending and later completes with its own result, and the executer remains usable. The same holds when the operating system refuses a request, at once or (overlapped I/O on Windows) after other coroutines have sent theirs, when reading an answer fails, when a callback raises, and when an operation is interrupted while other greenlets run: the exception reaches the caller and no other request is lost or answered twice.",
  ["schedules", "fault_sequences"], "every position of a failing or refused request, failing read, interruption or raising callback among the other requests",
  "Needs several outstanding requests and a fault in the middle; the tests have one request and one fault.",
  ["__init__.py", "linux.py", "win32.py", "solaris.py", "aix.py"],
  [("exception or data", "__init__.py CommandExecuterBase._process_pending_response"), ("errors become the answer of their request", "solaris.py SolarisCommandExecuter._handle_raw_response"), ("errors become the answer of their request", "aix.py AixCommandExecuter._handle_raw_response")], PEND,
  ["callbacks", "exceptions"])
p("C05", "A synchronous coroutine yields what its generators compute",
  "Running a coroutine synchronously is equivalent to running the same code as nested ordinary calls: a yielded coroutine is replaced by its result, a yielded plain value is sent back unchanged, a yielded I/O token by the token's result, and each effect happens exactly once and in program order. The result of the whole is that of its last yield.",
  ["programs"], "every program of nested coroutines, tokens, values, early returns, to any depth",
  "The tests run a handful of fixed nestings; equivalence with direct calls quantifies over programs.",
  ["coroutines/sync_adapter.py"],
  [("trampoline", "coroutines/sync_adapter.py Coroutine._next_step"), ("result", "coroutines/sync_adapter.py Coroutine.loop"), ("entry points", "coroutines/sync_adapter.py sync_call, sync_wait")],
  [("stack", "the suspended generators", "coroutines/sync_adapter.py Coroutine"), ("args", "what is sent into the innermost generator next", "coroutines/sync_adapter.py Coroutine")],
  ["values received by the generators", "result of sync_wait/sync_call"])
p("C06", "Exceptions propagate through coroutines as through ordinary calls",
  "An exception raised in a nested coroutine or by an I/O token appears in the coroutine that yielded it, at that yield; it can be caught there, after which execution continues normally and the exception does not surface again, and otherwise continues outwards until it leaves the outermost call as the same exception object, with a traceback that leads to where it was raised. Cleanup handlers on the way run exactly once.",
  ["programs", "fault_sequences"], "every position of a raise and of a handler in every nesting",
  "The tests cover two shapes of raise and handler.",
  ["coroutines/sync_adapter.py"],
  [("throw into the caller", "coroutines/sync_adapter.py Coroutine._next_step"), ("failed token", "coroutines/sync_adapter.py Coroutine._complete_async_io_token")], None,
  ["exceptions seen by the generators and by the caller"])
p("C07", "Concurrent coroutines complete with their own results",
  "The asynchronous reactor runs any number of coroutines whose I/O completes in any order: each resumes exactly when its own I/O has completed and with that I/O's outcome, their results do not depend on the order of completions, and the reactor returns once all of them are finished. A coroutine that does no I/O at all simply completes. If waiting itself fails, that is raised and nobody is resumed. The event object of each request is closed once, when the request is over.",
  ["schedules", "programs"], "every set of coroutines and every order of completions",
  "The reactor is only used on Windows and no test runs it; the outcome depends on the completion schedule.",
  ["win32.py", "coroutines/sync_adapter.py"],
  [("reactor loop", "win32.py Win32AsyncReactor.wait_for"), ("suspension at a token", "coroutines/sync_adapter.py AsyncCoroutine"), ("overlapped token", "win32.py Win32OverlappedToken")], None,
  ["resumptions", "results of wait_for"])
p("C08", "Linux statuses are classified correctly and never swallowed",
  "On Linux, a response is reported as success only if SCSI, driver and host status all say so; CHECK CONDITION (or sense reported by the driver) gives the check-condition error with the returned sense bytes and their decoding, RESERVATION CONFLICT the reservation-conflict error, and every other bad SCSI, driver or host status a SCSI error; what the driver merely suggests (its upper four bits) is no error. Successful reads return the bytes the device transferred, other successful commands return None.",
  ["inputs"], "all combinations of SCSI status, driver status, host status and sense data, in both transports (sg read/write and ioctl)",
  "A product space of more than 2^24 combinations of which the tests try a few.",
  ["linux.py", "__init__.py"],
  [("classification", "linux.py LinuxCommandExecuter._handle_raw_response"), ("sense decoding", "__init__.py CommandExecuterBase._check_condition")], None,
  ["result or exception of a command"])
p("C09", "Windows, Solaris and AIX statuses are classified correctly",
  "On Windows, Solaris and AIX, a command is reported as success only if the OS call succeeded and the SCSI status (and, where present, the transport's own failure code and the status of the request for sense) is good; CHECK CONDITION gives the check-condition error with the returned sense bytes, and every other failure, including a failed OS call, another error. Nothing else is reported as an error, and successful reads return the bytes transferred.",
  ["inputs", "fault_sequences"], "all statuses, reasons, adapter statuses, OS errors and sense data",
  "These platforms' code is not run by any test that works here.",
  ["win32.py", "solaris.py", "aix.py"],
  [("Windows", "win32.py Win32CommandExecuter._os_receive"), ("Solaris", "solaris.py SolarisCommandExecuter._os_send/_os_receive"), ("AIX", "aix.py AixCommandExecuter._os_send/_os_receive")], None,
  ["result or exception of a command"])
p("C10", "Linux requests are marshalled faithfully",
  "For every command, the structure handed to the Linux SCSI generic driver carries exactly the command's bytes and length, the right transfer direction and byte count, the bytes to be written or a buffer of the size to be read, a sense buffer, the packet id and the configured timeout. What the driver transfers is what the caller receives, bit for bit.",
  ["inputs"], "every CDB length, every direction, every transfer length including none, all data",
  "The tests replace the executer by a mock, so the marshalled request is never looked at.",
  ["linux.py"],
  [("request", "linux.py SGIO.create"), ("send", "linux.py LinuxCommandExecuter._os_send, LinuxIoctlCommandExecuter._os_send"), ("response", "linux.py SGIO.from_string")], None,
  ["raw structure at write()/ioctl()"])
p("C11", "Windows, Solaris and AIX requests are marshalled faithfully",
  "For every command, the structure handed to the Windows, Solaris or AIX pass-through driver carries exactly the command's bytes and length, the right transfer direction and byte count, the bytes to be written or a buffer of the size to be read, room for sense data and the timeout, at the offsets the OS defines. What the driver transfers is what the caller receives, bit for bit.",
  ["inputs"], "every CDB length, every direction, every transfer length including none, all data",
  "These platforms' code is not run by any test that works here.",
  ["win32.py", "solaris.py", "aix.py"],
  [("SCSI_PASS_THROUGH_DIRECT", "win32.py SCSIPassThroughDirect.create"), ("uscsi_cmd", "solaris.py USCSICMD"), ("scsi iocmd", "aix.py sc_passthru")], None,
  ["raw structure at DeviceIoControl()/ioctl()"])
p("C12", "Sense data is decoded correctly and never masks the error",
  "Fixed and descriptor format sense data, current or deferred, decode to the sense key, additional sense code and qualifier, and other fields at the positions defined by SPC. Sense data of any content or length never prevents the check-condition error from being raised with the raw bytes.",
  ["inputs"], "all sense buffers of the sense length: every response code, every field value, every truncation",
  "Tests decode a few recorded buffers.",
  ["sense/__init__.py", "__init__.py"],
  [("format selection and layout", "sense/__init__.py get_sense_object_from_buffer"), ("error", "__init__.py CommandExecuterBase._check_condition")], None,
  ["sense_obj and sense_buffer of the exception"])
p("C13", "Every additional sense code has its standard name",
  "Each of the 65536 pairs of additional sense code and qualifier is translated to the name of exactly that pair in the T10 table (or the range rule covering it), keeps its own code and qualifier, and pairs that are not in the table are reported as unknown rather than under another name.",
  ["inputs"], "all 65536 (code, qualifier) pairs",
  "The tests look at a few codes.",
  ["sense/asc.py"],
  [("table and ranges", "sense/asc.py")], None, ["additional_sense_code of decoded sense"])
BIO = ["cdb/read.py", "cdb/write.py", "cdb/write_same.py", "cdb/compare_and_write.py", "cdb/unmap.py"]
p("C14", "Block I/O commands encode and transfer exactly what was asked",
  "READ and WRITE (6/10/12/16), WRITE SAME, COMPARE AND WRITE and UNMAP send a CDB whose operation code, logical block address, transfer length, flags and parameter data encode exactly the requested operation in the layout of SBC, and move exactly the bytes it implies: number of blocks times block size on a read, the caller's buffer unchanged on a write. READ(6) and WRITE(6) express 256 blocks as zero.",
  ["inputs"], "every valid address, length, block size, flag and buffer",
  "Most of these commands have no test; errors hide at field boundaries (bit 16, 21, 32, byte order, length 0 or 256).",
  BIO, [("layouts and constructors", "cdb/read.py"), ("layouts and constructors", "cdb/write.py"), ("parameter list", "cdb/unmap.py UnmapCommand")], None,
  ["CDB and data handed to the executer"])
p("C15", "Discovery commands encode exactly what was asked",
  "INQUIRY (standard and every vital product data page), READ CAPACITY, REPORT LUNS, REPORT TARGET PORT GROUPS, RECEIVE COPY OPERATING PARAMETERS, LOG SENSE, RECEIVE DIAGNOSTIC RESULTS and TEST UNIT READY send a CDB that encodes exactly the requested page, options and allocation length in the layout of SPC/SBC, and ask the OS for exactly that allocation length.",
  ["inputs"], "every page code, option and allocation length",
  "Tests use the default arguments.",
  ["cdb/inquiry/__init__.py", "cdb/inquiry/standard.py", "cdb/inquiry/vpd_pages/__init__.py", "cdb/read_capacity.py", "cdb/report_luns.py", "cdb/rtpg.py", "cdb/receive_copy_operating_parameters.py", "cdb/log_sense.py", "cdb/diagnostic/__init__.py", "cdb/tur.py"],
  [("INQUIRY layout", "cdb/inquiry/__init__.py InquiryCommand"), ("diagnostic layout", "cdb/diagnostic/__init__.py ReceiveDiagnosticResultCommand")], None,
  ["CDB and allocation length handed to the executer"])
p("C16", "Reservation commands encode exactly what was asked",
  "RESERVE and RELEASE (6/10) and PERSISTENT RESERVE IN and OUT send a CDB and parameter list that encode exactly the requested service action, type, keys, flags, third-party and transport ids in the layout of SPC, with a parameter list length equal to the bytes sent.",
  ["inputs"], "every service action, type, pair of 64-bit keys, flag combination, device id and transport id",
  "Tests cover a few combinations, and flags are independent bits.",
  ["cdb/reserve.py", "cdb/release.py", "cdb/persist/output.py", "cdb/persist/input.py", "cdb/persist/transport.py"],
  [("parameter lists", "cdb/persist/output.py"), ("allocation", "cdb/persist/input.py PersistentReserveInCommand"), ("long id", "cdb/reserve.py Reserve10Command")], None,
  ["CDB and parameter list handed to the executer"])
p("C17", "Requests that cannot be expressed are refused, not altered",
  "An address, length, count or buffer that does not fit the command chosen for it (too large, negative, or a buffer that is not whole blocks) is refused with an exception before anything is sent to the device. It is never silently truncated, wrapped or rounded into a different command.",
  ["inputs"], "every out-of-range value of every argument of the block I/O and reservation commands",
  "No test passes an out-of-range argument; a wrap corrupts data at another address.",
  BIO + ["cdb/reserve.py", "cdb/release.py", "cdb/persist/output.py", "cdb/persist/input.py"],
  [("argument assertions", "cdb/read.py"), ("argument assertions", "cdb/write.py"), ("field ranges", "cdb/unmap.py")], None,
  ["exceptions; nothing handed to the executer"])
p("C18", "Standard INQUIRY data decodes to what the device reported",
  "Every field of standard INQUIRY data - device type and qualifier, flags, version, vendor, product, revision, vendor specific bytes and version descriptors - decodes to the value at its SPC position, for any additional length the device reports and whatever lies beyond it in the buffer. Fields that were not returned are reported as absent.",
  ["inputs"], "all field values, every additional length, every allocation length of at least 36",
  "Tests decode a few recorded buffers.",
  ["cdb/inquiry/standard.py", "cdb/inquiry/__init__.py"],
  [("layout", "cdb/inquiry/standard.py StandardInquiryDataBuffer"), ("optional part", "cdb/inquiry/standard.py StandardInquiryExtendedDataBuffer")], None,
  ["attributes of the result"])
VPD = ["cdb/inquiry/vpd_pages/" + f for f in ("__init__.py", "supported_pages.py", "unknown.py", "unit_serial_number.py", "logical_block_provisioning.py", "device_identification.py", "veritas.py", "block_limits.py", "ata_information.py")]
p("C19", "Vital product data pages decode to what the device reported",
  "For every page code the page's own decoder is used (pages without one are returned as raw data), and each field decodes to the value at its position in the standard. Lists and strings end where the page's own length says, whatever follows in the buffer.",
  ["inputs"], "all 256 page codes; all field values and page lengths of the pages that are decoded",
  "Tests decode a few recorded pages; most pages have none.",
  VPD, [("dispatch by page code", "cdb/inquiry/vpd_pages/__init__.py"), ("layouts", "cdb/inquiry/vpd_pages/block_limits.py"), ("layouts", "cdb/inquiry/vpd_pages/ata_information.py")], None,
  ["attributes of the result"])
p("C20", "Device identification designators decode to what the device reported",
  "A device identification page yields one designator per descriptor, in order; each is decoded by the format its own type, NAA and length call for, its fields and the surrounding association, code set and protocol fields are those of the standard, and unknown types keep their raw bytes.",
  ["inputs", "configurations"], "all sequences of designators, of every type, NAA, EUI-64 length and content",
  "Tests decode a few recorded pages; the choice of a decoder depends on several fields at once.",
  ["cdb/inquiry/vpd_pages/designators.py", "cdb/inquiry/vpd_pages/device_identification.py"],
  [("choice of the format", "cdb/inquiry/vpd_pages/designators.py determine_designator"), ("layouts", "cdb/inquiry/vpd_pages/designators.py")], None,
  ["designators_list of the result"])
p("C21", "PERSISTENT RESERVE IN data decodes to what the device reported",
  "READ KEYS, READ RESERVATION, REPORT CAPABILITIES and READ FULL STATUS return exactly the keys, holder, type, scope, capabilities and registrants in the parameter data, all of them and in order, for any number of registrants and any allocation length. When the data was truncated by the allocation length, nothing is invented and the allocation length needed is reported.",
  ["inputs"], "every number of keys and descriptors, every key, type, scope and transport id, every truncation",
  "Tests decode a few recorded buffers.",
  ["cdb/persist/input.py", "cdb/persist/transport.py"],
  [("layouts", "cdb/persist/input.py")], None, ["attributes of the result"])
p("C22", "REPORT LUNS returns exactly the logical units the device reported",
  "REPORT LUNS returns the logical unit numbers in the parameter data, all and only those its list length covers and in order. Numbers in an addressing format the library does not support raise an error unless the caller allows them, and are never returned as other numbers.",
  ["inputs"], "every list of LUN entries, every allocation length",
  "Tests decode one list.",
  ["cdb/report_luns.py"], [("decoding", "cdb/report_luns.py ReportLunsData.normalize_lun_list")], None, ["lun_list and hex_lun_list of the result"])
p("C23", "Capacity, target port group and copy parameters decode correctly",
  "READ CAPACITY, REPORT TARGET PORT GROUPS (both formats) and RECEIVE COPY OPERATING PARAMETERS return the values at the positions SPC/SBC define: capacities, block sizes, provisioning flags, each group with its state, flags, status and ports, and all copy limits. Truncated target port group data is reported as such.",
  ["inputs"], "all field values, every number of groups and ports",
  "Tests cover recorded buffers of one of these commands.",
  ["cdb/read_capacity.py", "cdb/rtpg.py", "cdb/receive_copy_operating_parameters.py"],
  [("layouts", "cdb/read_capacity.py"), ("layouts and truncation", "cdb/rtpg.py"), ("layouts", "cdb/receive_copy_operating_parameters.py")], None,
  ["attributes of the result"])
SES = ["cdb/diagnostic/ses_pages/" + f for f in ("__init__.py", "supported_pages.py", "unknown.py", "configuration.py", "enclosure_status.py", "vendor_0x80.py", "element_descriptor.py")]
p("C24", "Enclosure (SES) pages decode to what the enclosure reported",
  "Enclosure configuration, status, element descriptor and supported page data yield every enclosure, element and descriptor reported, in order and attached to the element type it belongs to, with each field at its SES position; pages without a decoder are returned raw. How many elements of which type there are is taken from the configuration page that goes with it.",
  ["inputs", "configurations"], "every configuration of subenclosures, element types and counts, all element bytes, all 256 page codes",
  "Tests decode recorded pages of one enclosure; the layout of a status page depends on the configuration.",
  SES, [("element layouts", "cdb/diagnostic/ses_pages/enclosure_status.py"), ("configuration", "cdb/diagnostic/ses_pages/configuration.py"), ("dispatch", "cdb/diagnostic/ses_pages/__init__.py")], None,
  ["attributes of the result"])
p("C25", "Reads return the last data written, end to end",
  "Against a block device, any history of READ, WRITE, WRITE SAME, COMPARE AND WRITE and UNMAP commands of any size class behaves like an array of blocks: a read returns for each block the data last written to it, a failed command changes nothing, and no other block is ever touched.",
  ["histories", "inputs"], "every history of commands over overlapping ranges, at any address",
  "No test writes and reads back; the property spans two commands, their encoders, and the executer.",
  BIO + ["linux.py", "__init__.py"], [("encoders", "cdb/read.py"), ("encoders", "cdb/write.py"), ("transfer", "linux.py SGIO.create")], None,
  ["data returned by reads", "content of the device"])
p("C26", "Reservation histories are reported and enforced faithfully",
  "Against a device shared by several initiators, any history of PERSISTENT RESERVE OUT and RESERVE/RELEASE commands leaves the registrations and reservation that SPC prescribes for the requested actions, READ KEYS / READ RESERVATION / READ FULL STATUS report exactly that state, and a command the reservation forbids fails with the reservation-conflict error and has no effect.",
  ["histories", "schedules"], "every interleaving of reservation commands of several initiators with arbitrary keys",
  "Tests issue single commands with canned answers; the property spans histories.",
  ["cdb/persist/output.py", "cdb/persist/input.py", "cdb/reserve.py", "cdb/release.py", "linux.py"],
  [("encoders", "cdb/persist/output.py"), ("decoders", "cdb/persist/input.py"), ("conflict status", "linux.py LinuxCommandExecuter._handle_raw_response")], None,
  ["decoded state", "exceptions"])
p("C27", "A device opened by the library is closed exactly once",
  "The context managers that open a device give an executer for that device and close the device exactly once when left, normally or by any exception, which they let through. If the device cannot be opened nothing is closed. File handles pass reads, writes and their errors through and close the descriptor they were given.",
  ["fault_sequences", "histories"], "every context manager, every exit (normal, exception in the body), every failure point",
  "No test enters a context manager.",
  ["executers.py", "unix.py", "win32.py", "__init__.py"], [("context managers", "executers.py"), ("handles", "unix.py UnixFile"), ("handles", "win32.py Win32File")], None,
  ["open/close calls"])
p("C28", "Reading from a device waits for it, but not forever",
  "Reading from a Unix device handle returns the device's bytes as soon as the device is readable, whatever its descriptor's number, never reads before that, and raises an I/O error if it stays silent for the configured time (60 seconds by default), not earlier. Timeouts given to the executers are passed on to the OS in its unit.",
  ["schedules", "configurations"], "every time at which the device becomes readable, every timeout",
  "Real time: no test waits.",
  ["unix.py", "linux.py", "solaris.py", "aix.py", "win32.py", "executers.py"], [("polling loop", "unix.py UnixFile.read"), ("timeouts", "linux.py SGIO.create")], None,
  ["calls to select/read and the clock"])
p("C29", "Blocking device calls let other greenlets run",
  "Every blocking device call an executer makes - on each platform, on every send and receive - is followed by one yield to other greenlets when gevent is in use, and its result and exceptions are passed through unchanged. Without gevent nothing but the call happens.",
  ["schedules", "histories"], "every command, platform and outcome, with and without gevent",
  "The tests check one wrapped function.",
  ["__init__.py", "linux.py", "solaris.py", "aix.py", "win32.py"], [("wrapper", "__init__.py gevent_friendly"), ("use", "linux.py LinuxCommandExecuter._os_send")], None,
  ["order of device calls and yields"])
p("C30", "Each platform gets its own implementation, others a clear error",
  "On Windows, Linux, Solaris and AIX the factories return that platform's executer and device handle, passing on the arguments they were given and opening the device read-write with that platform's flags; on any other platform, and for asynchronous files and reactors anywhere but on Windows, they raise an error naming the platform.",
  ["configurations"], "every platform, factory and set of arguments",
  "Tests run on one platform.",
  ["__init__.py"], [("factories", "__init__.py create_platform_command_executer, create_os_file, create_async_os_file, create_os_async_reactor")], None,
  ["types and arguments of what is constructed"])
p("C31", "Commands are independent of each other and of history",
  "What a command sends and how its answer is decoded depend only on its own arguments and that answer: executing the same command again sends the same bytes, and creating, executing or failing other commands, of the same or another kind, in any order, changes neither. Results already returned never change afterwards.",
  ["histories"], "every history of constructing and executing commands, interleaved over executers",
  "Needs histories of several commands (shared mutable defaults, class-level state); tests use fresh commands.",
  ["cdb/__init__.py", "cdb/read.py", "cdb/write.py", "cdb/unmap.py", "cdb/control.py", "cdb/persist/output.py", "cdb/inquiry/vpd_pages/__init__.py", "cdb/diagnostic/ses_pages/enclosure_status.py"],
  [("per-instance state", "cdb/unmap.py UnmapCommand"), ("default control byte", "cdb/control.py DEFAULT_CONTROL_BUFFER"), ("class generation", "cdb/diagnostic/ses_pages/enclosure_status.py")], None,
  ["bytes sent, results"])
p("C32", "The synchronous adapter behaves like the executer it wraps",
  "Wrapping an executer with a call wrapper forwards each call, send, wait and queue test exactly once, with its arguments, to the wrapped executer, and returns or raises what that gives. Calling a coroutine function synchronously runs it exactly once.",
  ["histories"], "every sequence of operations on the adapter",
  "Tests call at most one adapter method.",
  ["__init__.py", "coroutines/sync_adapter.py"], [("adapter", "__init__.py CommandExecuterAdapter"), ("sync call", "coroutines/sync_adapter.py sync_call")], None,
  ["calls received by the wrapped executer"])
p("C33", "Response structures survive a pack/unpack round trip",
  "Structures that can be both packed and unpacked - standard INQUIRY data, designators, persistent reservation parameter lists, transport ids, copy parameters - pack to the layout of the standard with correct length fields, and unpacking what was packed gives the same field values back.",
  ["inputs"], "all field values and list lengths",
  "Tests pack one or two structures.",
  ["cdb/inquiry/standard.py", "cdb/inquiry/vpd_pages/designators.py", "cdb/persist/output.py", "cdb/persist/transport.py", "cdb/receive_copy_operating_parameters.py"],
  [("length fields", "cdb/inquiry/standard.py StandardInquiryDataBuffer._calc_additional_length"), ("length fields", "cdb/inquiry/vpd_pages/designators.py")], None,
  ["packed bytes, unpacked attributes"])
p("C34", "Errors name what failed",
  "The error raised for a failed command says what failed: on Linux, Solaris and AIX the codes the operating system reported (SCSI status; driver and host status; reason and request status; validity, adapter status, invalid argument), on Windows the SCSI status or the system's error number - each code under its own heading, as it was reported and, on Linux and AIX, with that code's standard symbol (a driver status with that of its lower four bits). The error for a check condition shows the sense data in hex, and the names of its sense key and additional sense code. How an error is worded otherwise is free.",
  ["inputs"], "every value of every status field, on each platform; sense data of every format",
  "Tests look at no error's text; the texts are built from several codes that only differ in rare failures.",
  ["errors.py", "linux.py", "solaris.py", "aix.py", "win32.py", "sense/__init__.py", "sense/asc.py"],
  [("texts", "linux.py LinuxCommandExecuter._handle_raw_response"), ("texts", "aix.py AixAsiSCSIError"), ("sense text", "errors.py AsiCheckConditionError")], None,
  ["text of the error raised"])
p("C35", "Published codes and names are the standards'",
  "The tables of names and the constants callers use - peripheral device types, SCSI versions, VPD pages, code sets, designator types and associations, SES element types and statuses, fan speeds, persistent reservation service actions and types, INQUIRY and diagnostic page codes, SCSI statuses, sense keys, operation codes - give each code the name the standards give it, one name per code.",
  ["inputs"], "every code of every table and every constant",
  "Tests use a handful of the constants, mostly through the code that uses the same constant.",
  ["cdb/inquiry/vpd_pages/__init__.py", "cdb/diagnostic/ses_pages/__init__.py", "cdb/diagnostic/ses_pages/configuration.py", "cdb/diagnostic/ses_pages/enclosure_status.py", "cdb/persist/output.py", "cdb/persist/input.py", "__init__.py", "sense/__init__.py"],
  [("names", "cdb/inquiry/vpd_pages/__init__.py SCSI_VPD_NAME and the other tables"), ("names", "cdb/diagnostic/ses_pages/configuration.py ELEMENT_TYPE_CODES"), ("constants", "cdb/persist/output.py PERSISTENT_RESERVE_OUT_TYPES")], None,
  ["contents of the tables, values of the constants"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
