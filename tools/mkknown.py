"""Writes KNOWN_FINDINGS.txt: the defects found and repaired (a 'fixed' line suppresses nothing) and open findings ('finding' lines)."""
import os, subprocess
F = """b5eab05 C02 repaired so that: import AsiRequestQueueFullError so a full queue raises it instead of NameError
14880b8 C01 repaired so that: never reuse the packet index of a request that is still pending
8e71de7 C03 repaired so that: do not wait for a response when no request is pending
7c2c33b C03 repaired so that: the callback of send() is optional when its response is processed
83e75c6 C32 repaired so that: CommandExecuterAdapter.is_queue_full returns the executer's answer, which is not a coroutine
e2237fa C32 repaired so that: sync_call invokes the function once
23bc685 C06 repaired so that: an exception a coroutine handled is not raised again in its caller
b67ead5 C05 repaired so that: a finished coroutine's result is a value, not a leftover generator or async IO token
9ad8559 C06 repaired so that: a failed async IO raises in the coroutine that waits for it
bfe8c28 C08 repaired so that: linux: a reservation conflict is a SCSI status, not a host status
2f3649f C01 repaired so that: linux: a response to an unknown request raises AsiInternalError, not AttributeError
e792e10 C08 repaired so that: linux: read the status the SG_IO ioctl returns instead of the request's own zeros
e16d30b C01 repaired so that: ioctl executers answer every queued request, not only the last one sent
a66b98f C09 repaired so that: solaris: report the uscsi reason code, the high byte of the status word
a352cc8 C09 repaired so that: aix: notice that the libc ioctl failed
0dce8c0 C07 repaired so that: win32: a failed overlapped I/O is an error
39d38b6 C07 repaired so that: win32: an overlapped I/O that completes immediately is not an error
90827f2 C12 repaired so that: descriptor format sense data keeps its length in byte 7
859f343 C12 repaired so that: a check condition with malformed sense data is still a check condition
eefa9b2 C13 repaired so that: the NNh ranges of additional sense codes include FFh
b46098b C14 repaired so that: READ(6) of 256 blocks honours the block size
d98e2be C14 repaired so that: WRITE SAME honours the block size
b1ae67b C14 repaired so that: UNMAP DATA LENGTH counts the 6 header bytes after it
85c18bf C23 repaired so that: extended RTPG descriptors start after the 8 byte header
2e51b6e C23 repaired so that: RTPG counts and lengths are unsigned
5e48246 C21 repaired so that: READ FULL STATUS required_allocation_length raised NameError
2682595 C21 repaired so that: READ RESERVATION scope and type need 22 bytes
178650a C16 repaired so that: PERSISTENT RESERVE OUT honours APTPL
6150178 C20 repaired so that: 3 and 5 byte designator fields are big endian
36bf620 C20 repaired so that: reserved designators keep their bytes in 'designator'
8a2c2a9 C33 repaired so that: a packed T10 vendor id designator counts the 8 bytes of the vendor
554d434 C24 repaired so that: SES counts, lengths, codes and sizes are unsigned
e141e31 C24 repaired so that: SES element bytes of an unknown element type are unsigned
930e23c C24 repaired so that: the high bits of a fan speed are in the first byte
c27739c C24 repaired so that: the requests of an enclosure status element are in its last byte
7df5c45 C24 repaired so that: the vendor 80h diagnostic page ends at its page length
dfa0aaa C24 repaired so that: the command for an unknown diagnostic page returns the page
0a0c66d C24 repaired so that: the supported diagnostic pages end at the page length
ef4ef5d C19 repaired so that: the page length of VPD pages 00h and 80h is two bytes
f9ccd77 C19 repaired so that: ATA information numbers are unsigned
d710ea3 C21 repaired so that: a truncated READ FULL STATUS yields no partial descriptor
eda3324 C09 repaired so that: solaris: a transport failure is not a success
2f75fb1 C03 repaired so that: an ioctl's answer is recorded before other greenlets run
542ae68 C17 repaired so that: READ(6) and WRITE(6) refuse a negative address
e13f8e4 C17 repaired so that: RESERVE(10) and RELEASE(10) refuse a negative third party id
622e275 C17 repaired so that: PERSISTENT RESERVE IN and OUT refuse a negative action or type
3db9d81 C31 repaired so that: setting one command's control byte changes no other command's
77e8260 C19 repaired so that: the ATA model number is decoded to its last word
0428ba3 C19 repaired so that: an ATA device signature with bytes that are not ASCII is decoded
51eb728 C28 repaired so that: a device that became readable during the last sleep before the timeout is read
db458ba C01 an ioctl executer gave the answer of a request that had been interrupted (an exception raised into the greenlet while it let others run) to the next command; an sg request interrupted in send() was forgotten although the device had it, so that its answer killed another command, and a response read before an interruption was lost
427b244 C34 an error about the driver's or the host's status showed the (good) SCSI status under that name, and the driver's status as the host's
050c2e8 C34 an AIX error showed a masked copy of the SCSI status: TASK ABORTED (40h) looked like GOOD
de95012 C07 with more than 64 coroutines at a time the reactor waited for more events than WaitForMultipleObjects takes, which fails
ca994fd C07 the event of an overlapped request was never closed: each command leaked a handle
31113bb C28 a device whose file descriptor is 1024 or more (a process with many open files) could not be read: select() does not take it"""
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "585417f..HEAD"], stdout=subprocess.PIPE).stdout.decode().split()
lines = []
for l in F.split("\n"):
    c, p, t = l.split(" ", 2)
    assert c in log, c
    lines.append("fixed: property=%s %s %s" % (p, c, t))
missing = [c for c in log if c not in F]
if missing: print("not recorded:", missing)
OPEN = []
with open(os.path.join(here, "KNOWN_FINDINGS.txt"), "w") as f:
    f.write("# fixed: property=<id> <commit in /repo> <what failed>      repaired; suppresses nothing\n"
            "# finding: property=<id> match=[substrings of the failing case] <what fails>      open\n")
    f.write("\n".join(lines + OPEN) + "\n")
