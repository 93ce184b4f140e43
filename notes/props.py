#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 notes/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw))
    assert len(title) <= 80, title
    P.append(d)

p("P01", "Packet headers survive a write/read round trip",
  "A packet header written by the system (any origin and destination address with points, any valid packet time, any password of up to eight characters) occupies exactly 58 bytes and is read back with the same addresses, time, password, version and product data. A header whose version, year, month, day, hour, minute or second is out of range, or which is cut short, is reported as an error and never as a valid header.",
  ["inputs"], "every pair of zone:net/node.point addresses in 16 bit, every calendar time, every password, every truncation point",
  "the tests write a handful of fixed packets; the address/zone/point fields are stored redundantly (FTS-0001, FSC-0039, FSC-0048) and a mix-up shows only for unusual values",
  ["src/common/packet.c"], [("pkt_put_hdr/pkt_put_hdr_raw write, pkt_get_hdr reads", "src/common/packet.c")])
p("P02", "Message headers survive a write/read round trip within FTS-0001 limits",
  "A packed message header written by the system is read back with the same attribute word, cost, net/node addresses, names and subject, except that names and subject longer than the FTS-0001 limits (36 and 72 bytes including the terminator) are cut to the longest prefix that fits. For netmail the zone and point of both addresses are carried by the INTL/FMPT/TOPT kludges that follow, for echomail by the AREA line.",
  ["inputs"], "every 16-bit address, attribute, cost, and every name/subject content up to the stated lengths around the limits",
  "limit and off-by-one behaviour depends on exact field lengths; tests use short ordinary names",
  ["src/common/packet.c"], [("pkt_put_msg_hdr", "src/common/packet.c"), ("pkt_get_msg_hdr", "src/common/packet.c")])
p("P03", "Reading packet data never overruns a buffer and always terminates strings",
  "Whatever bytes a packet contains, reading its header, message headers, strings and lines stores only inside the caller's buffers, leaves every returned string NUL-terminated and holding the longest prefix that fits, and consumes the field up to and including its terminator; a premature end of file inside a packet header, a number or a line is reported as such.",
  ["inputs"], "every byte sequence up to the stated length and every buffer size around it",
  "packets come from other systems; overruns need exact lengths that no fixed test packet has",
  ["src/common/packet.c", "src/common/message.c"], [("pkt_get_string, pkt_get_line, pkt_get_msg_hdr, pkt_get_hdr", "src/common/packet.c, src/common/message.c")])
p("P04", "Re-packing a message keeps its text, kludges, SEEN-BY and PATH",
  "When a message body is split into area line, kludges, RFC headers, text, tear line, origin, SEEN-BY and PATH and written out again, every text line comes out unchanged, exactly once and in the original order (up to two blank lines in front of the text are dropped), and the control lines come out in the standard order, each terminated by a carriage return; for echomail a missing tear line or origin is added rather than the text changed. A last line without carriage return is kept. Classification of a line depends only on its own content and position.",
  ["inputs"], "every body made of up to the stated number of lines of every kind with arbitrary content",
  "body tests use a few well-formed messages; lost or reordered lines need particular line sequences",
  ["src/common/message.c", "src/common/textlist.c"], [("pkt_get_body/pkt_get_body_parse, pkt_put_msg_body / msg_put_msgbody", "src/common/message.c")])
p("P05", "FTN addresses survive printing and parsing",
  "Every address zone:net/node.point (with or without domain) printed by the system is parsed back to the identical address, and parsing accepts exactly the documented forms: anything else, including numbers out of range, trailing garbage or missing parts, is rejected and leaves no half-parsed address accepted.",
  ["inputs"], "every numeric address within FTN ranges and every short text over the address alphabet",
  "the tests parse a list of examples; printing and parsing are separate hand-written code",
  ["src/common/node.c", "src/common/parsenode.c"], [("znfp_put_number/str_znfp_print, asc_to_node", "src/common/node.c"), ("znfp_parse_*", "src/common/parsenode.c")])
p("P06", "Abbreviated address lists (SEEN-BY/PATH style) denote the same addresses",
  "Writing a list of addresses in the abbreviated form used for SEEN-BY, PATH and AREAS.BBS (omitting zone, net or node that repeat the previous entry) and reading it back yields the same set of addresses, each once; membership, addition and removal on the list behave as on a mathematical set.",
  ["inputs", "histories"], "every sequence of up to the stated number of addresses",
  "abbreviation depends on the relation between neighbouring entries; tests sample few pairs",
  ["src/common/node.c"], [("node_to_asc_diff / asc_to_node_diff, lon_* list functions", "src/common/node.c")])
p("P07", "FTN addresses survive the trip through their Internet form",
  "The Internet domain name produced for an FTN address converts back to the same address, for every address in range; names that are not of that form are not mistaken for FTN addresses.",
  ["inputs"], "every zone, net, node, point in range; every short label sequence",
  "only examples are tested", ["src/common/address.c"], [("inet_to_ftn/ftn_to_inet", "src/common/address.c")])
p("P08", "Routing picks the first matching rule and the right link",
  "For every routing table and destination, the route taken is the one given by the first matching rule for the message flavour in table order, wildcard address patterns match exactly the addresses they denote, and points not routed explicitly go to their boss node.",
  ["inputs", "configurations"], "every table of up to the stated number of rules and every destination address",
  "rule order and wildcard interaction cannot be enumerated by example", ["src/common/routing.c", "src/common/node.c"], [("node_match, routing tables", "src/common/routing.c, src/common/node.c")])
p("P09", "Bounded string operations never write outside the destination",
  "Every bounded copy, append, concatenate and format operation used throughout the system writes only inside the destination's stated size, always leaves it NUL-terminated, and its result is the longest prefix of the full result that fits.",
  ["inputs"], "every destination size, prior content and source string up to the stated lengths",
  "truncation boundaries (exactly full, one short) are not sampled by the tests", ["src/common/misc.c"], [("str_copy*, str_append*, str_printf", "src/common/misc.c")])
p("P10", "Line lists keep every line, in order, under every sequence of operations",
  "After any sequence of append, insert, move, copy, delete and remove operations, a line list holds exactly the lines a plain sequence would hold, in the same order forwards and backwards, with the correct count.",
  ["histories"], "every sequence of up to the stated number of operations on up to two lists",
  "tests run a few fixed sequences", ["src/common/textlist.c"], [("tl_* functions", "src/common/textlist.c")])
p("P11", "Base64 and quoted-printable text decodes to what was encoded",
  "Encoding any byte string for transport and decoding it yields the same bytes, encoded output uses only the permitted alphabet and line lengths, and decoding arbitrary (also malformed) input never reads or writes outside the buffers.",
  ["inputs"], "every byte string up to the stated length, every malformed input up to the stated length",
  "examples only", ["src/common/mime.c"], [("mime_b64_*/mime_qp_* encode and decode", "src/common/mime.c")])
p("P12", "RFC 2047 header encoding is reversible and line-bounded",
  "A header text encoded as encoded-words decodes to the original bytes, every encoded word is complete and at most 75 characters with lines of at most 76, and decoding arbitrary header text never overruns the output buffer.",
  ["inputs"], "every header text up to the stated length", "folding boundaries depend on exact lengths", ["src/common/mime.c"], [("mime_header_enc / mime_header_dec", "src/common/mime.c")])
p("P13", "Decoding a MIME mail keeps the text of every text part and never crashes",
  "Decoding a mail body, single or multipart, with any transfer encoding and any (also malformed) structure, terminates without touching memory outside its buffers, and every line of every text part appears in the result in order.",
  ["inputs"], "every body of up to the stated number of lines", "malformed multipart structures are not in the tests", ["src/common/mime.c"], [("mime_body_dec, mime_debody_*", "src/common/mime.c")])
p("P14", "Character set conversion is memory-safe and loses nothing convertible",
  "Converting any text between character sets never writes beyond the allocated result, passes every convertible character through, replaces what cannot be converted and goes on behind it, and the UTF-8 check accepts exactly the valid UTF-8 strings.",
  ["inputs"], "every byte string up to the stated length, every behaviour of the conversion library allowed by its contract",
  "library error paths (invalid, incomplete, output full) are input dependent", ["src/common/charset.c"], [("charset_recode_buf / _charset_recode_iconv, charset_is_valid_utf8", "src/common/charset.c")])
p("P15", "Message identities map one-to-one between FTN and Internet",
  "A message identification produced for an FTN message and converted back gives the original identification; the same FTN message always gets the same Internet Message-ID and different FTN identifications get different ones.",
  ["inputs"], "every identification string up to the stated length", "injectivity is a property of pairs of inputs", ["src/common/msgid.c"], [("s_msgid_fido_to_rfc, s_msgid_rfc_to_fido", "src/common/msgid.c")])
p("P16", "Pattern matching for access lists equals its definition",
  "Wildcard matching of area and group names gives exactly the result of the documented pattern language (star, question mark, character class, escape, exclusion lists), for every pattern and name, without reading outside either string, and repeated look-ups in an access list give the same answer.",
  ["inputs", "histories"], "every pattern and name up to the stated length", "pattern/subject pairs explode; malformed patterns are not tested", ["src/common/wildmat.c", "src/common/acl.c"], [("wildmat, acl lookups", "src/common/wildmat.c, src/common/acl.c")])
p("P17", "CRC-16 and CRC-32 equal their polynomial definitions",
  "The checksums used for file announcements, packet identification and message digests equal the bit-serial CRC-16 (XMODEM) and CRC-32 definitions for every input, independent of how the input is split into pieces.",
  ["inputs"], "every byte string up to the stated length; one arbitrary step from an arbitrary state for any length", "table entries not exercised by the tests can be wrong", ["src/common/crc16.c", "src/common/crc32.c"], [("crc tables", "src/common/crc16.c, src/common/crc32.c")])
p("P18", "At most one process holds a lock",
  "Whatever the interleaving of processes that take and release a program lock or a node's busy flag, never do two hold the same lock at the same time, a lock file is removed only by its holder, and an existing lock of a live process makes the attempt fail (or wait) instead of succeeding.",
  ["schedules"], "every interleaving of two processes at file-system operation granularity", "needs an exact interleaving between test and creation of the lock file", ["src/common/lock.c", "src/common/binkley.c"], [("lock_lockfile/lock_program, bink_bsy_create", "src/common/lock.c, src/common/binkley.c")])
p("P19", "Sequence numbers are never handed out twice",
  "Numbers drawn from the same sequence by any interleaving of processes are pairwise different and continue after the last value stored, also for a missing or empty sequence file; an I/O failure is reported instead of a number being reused.",
  ["schedules", "fault_sequences"], "every interleaving of two draws, every stored value, every single I/O failure", "needs exact interleavings or failing writes", ["src/common/sequencer.c"], [("sequencer_nx", "src/common/sequencer.c")])
p("P20", "Outbound names are distinct per node and flavour",
  "Different destination addresses (or different flavours, or different kinds: packet, flow file, busy flag) never map to the same outbound file name, and the name follows the BinkleyTerm rules (zone extension, hexadecimal net/node, point subdirectory).",
  ["inputs"], "every pair of addresses in 16 bit and every flavour", "pairs of inputs", ["src/common/binkley.c"], [("bink_find_out, bink_out_name, bink_bsy_name", "src/common/binkley.c")])
p("P21", "Flow files keep every entry",
  "Attaching a file to a node's flow file adds exactly one entry and keeps all others, attaching it again adds nothing, and marking an entry as sent changes only that entry.",
  ["inputs", "histories"], "every flow file of up to the stated number of entries", "history dependent", ["src/common/flo.c", "src/common/binkley.c"], [("bink_attach, flo_* functions", "src/common/flo.c, src/common/binkley.c")])
p("P22", "Tossed echomail reaches every subscribed link exactly once and never loops",
  "For every subscription list, SEEN-BY list and sender, the message is sent to exactly the active links that are subscribed, are not the sender and are not already listed in the SEEN-BY; the new SEEN-BY contains the old entries, the system's own address and all receivers (minus configured deletions, plus configured additions), and the PATH is the old path followed by the own address. SEEN-BY entries carry no zone and are compared by net and node only; of several links marked as uplinks only one gets messages.",
  ["inputs", "configurations"], "every set of up to the stated number of links, SEEN-BY and PATH entries", "tossing is only compiled by the tests; link/SEEN-BY combinations explode", ["src/toss/ftntoss.c"], [("do_seenby, do_path, do_forward", "src/toss/ftntoss.c")])
p("P23", "No inbound message is dropped when writing it fails",
  "If any message of an inbound packet cannot be stored in an outgoing packet, the packet is not removed from the inbound: either all messages were written or the packet is kept or renamed as bad. A failure to complete the outgoing packets at the end of the run is reported and ends the program with a nonzero status.",
  ["fault_sequences", "inputs"], "every failing write in every branch of message handling", "needs injected I/O failures at specific points", ["src/toss/ftntoss.c"], [("unpack, unpack_file, do_echomail, do_netmail, do_bad_msg", "src/toss/ftntoss.c")])
p("P24", "Area lists survive being read, changed and rewritten",
  "Printing an area list entry and reading it back yields the same area, directory, links with their modes, level, key, state, description and other options; changing one entry never alters another.",
  ["inputs", "configurations"], "every combination of options and links up to the stated sizes", "option combinations explode and only a few are used in tests", ["src/common/areasbbs.c"], [("areasbbs_print, areasbbs_parse_line", "src/common/areasbbs.c")])
p("P25", "Rewriting the area list is all-or-nothing",
  "At every crash point and for every failing file operation while the area list is rewritten, a complete area list, old or new, exists under its name, and success is reported only if the complete new list is in place.",
  ["crash_points", "fault_sequences"], "every operation boundary as crash point, every single failing operation", "needs crash or fault injection", ["src/common/areasbbs.c"], [("areasbbs_rewrite", "src/common/areasbbs.c")])
p("P26", "Areafix changes nothing without authorisation",
  "No remote command changes subscriptions, passwords or areas unless the request carried the right password for the sending node; a link can be subscribed only to areas whose level and every key letter it has; commands reserved for privileged nodes work only for these; only the requesting node's own subscription is changed.",
  ["inputs", "configurations"], "every authorisation state, command, level and key set up to the stated size", "areafix is only compiled by the tests; the check order matters for unusual combinations", ["src/areafix/areafix.c"], [("areafix_auth_check, areafix_auth_cmd, cmd_* handlers", "src/areafix/areafix.c")])
p("P27", "File announcements survive a write/read round trip",
  "Every announcement file written by the system is read back with the same area, file, description, long description, origin, from, to, checksum, size, password, SEEN-BY and PATH, and reading an arbitrary announcement never overruns a buffer.",
  ["inputs"], "every field content up to the stated length", "field combinations", ["src/common/tick.c"], [("tick_put, tick_get", "src/common/tick.c")])
p("P28", "Incoming file announcements touch only their own directories",
  "Processing a file announcement creates, moves, replaces or deletes files only inside the inbound and the directory of the announced area, whatever names the announcement contains, and only after the password, size and checksum of the announcement have been checked.",
  ["inputs"], "every name up to the stated length in every file-name field", "attack inputs are not in the tests", ["src/tick/ftntick.c"], [("process_tic, move_file_bsy, do_replaces", "src/tick/ftntick.c")])
p("P29", "Splitting a long message preserves its text",
  "When a message exceeding the size limit is split, the parts concatenated in order contain every text line of the original exactly once and in order, no part exceeds the limit by more than one line, and part numbers run from 1 to the announced total.",
  ["inputs"], "every list of up to the stated number of lines with arbitrary lengths and every limit", "boundaries depend on exact sizes", ["src/gate/rfc2ftn.c"], [("snd_message", "src/gate/rfc2ftn.c")])
p("P30", "Dates and time zone offsets are printed and applied correctly",
  "The FTS-0001, RFC 822 and Via date texts written for a time state exactly its year, month, day, weekday, hour, minute and second in the fixed format; a UTC offset [+-]hhmm (TZUTC kludge) is applied with the correct sign and amount and printed back as given (one minute itself excepted, which stands for 'not given'), otherwise the system's own time zone is used; the zone part of an RFC date is found or reported missing without reading outside the text.",
  ["inputs"], "every offset, every date in range", "only a few offsets are tested", ["src/common/date.c"], [("date_tz_str_to_time, date_tz, date_buf, date_rfc_tz", "src/common/date.c")])
p("P31", "Token splitting follows the quoting rules and never leaves the string",
  "Splitting a configuration or command line into words gives exactly the words defined by the separator and double-quote rules, for every line, without reading or writing outside it.",
  ["inputs"], "every line up to the stated length", "quote/separator adjacency cases", ["src/common/strtok_r.c"], [("strtok_r_ext", "src/common/strtok_r.c")])
p("P32", "Internet address fields are parsed safely and completely",
  "Parsing a From/To/Reply-To style field in one of the supported forms (user@domain, user@domain (Full Name), Full Name <user@domain>, \"Full Name\" <user@domain>, domain!user, user%domain, user) yields user, domain and full name exactly as written; parsing any other text never reads or writes outside its buffers. The address generated for an FTN user has the FTN name as user (quoted where RFC 822 needs it) and as full name without trailing blanks, and an address printed in either style is parsed back to the same parts.",
  ["inputs"], "every field up to the stated length", "comment/quote nesting", ["src/common/rfcaddr.c"], [("rfcaddr_from_rfc, rfcaddr_from_ftn, s_rfcaddr_to_asc", "src/common/rfcaddr.c")])
p("P33", "Own-address selection and link tables honour the first/best match",
  "The own address used towards a node is the configured one in the same zone (or net, or node) as documented, and look-ups in the password, host, alias and uplink tables return the first entry matching the key and nothing when none matches.",
  ["inputs", "configurations"], "every configuration of up to the stated number of addresses or entries", "order of configuration entries", ["src/common/config.c", "src/common/passwd.c", "src/common/hosts.c", "src/common/aliases.c"], [("cf_set_best, passwd_lookup, hosts_lookup, alias_lookup", "src/common")])
p("P34", "Packets are published only when complete",
  "A packet appears under its final name only after its terminator was written and the file closed without error, every message put into it can be read back in order, and appending to an existing packet keeps its earlier messages.",
  ["fault_sequences", "histories"], "every single failing file operation", "needs injected failures", ["src/common/packet.c", "src/common/outpkt.c"], [("pkt_open, pkt_close, outpkt_*", "src/common/packet.c, src/common/outpkt.c")])
p("P35", "Newsgroup and area names translate consistently",
  "For every table of area/newsgroup pairs, including whole-hierarchy entries, a name found by area translates to the group (and vice versa) given by the first matching entry, and translating there and back returns the original name.",
  ["inputs", "configurations"], "every name up to the stated length, tables of up to the stated size", "prefix/hierarchy boundary cases", ["src/common/areas.c"], [("areas_lookup", "src/common/areas.c")])
p("P36", "Duplicate messages are recognised and new ones are not suppressed",
  "A message identification is reported as a duplicate if and only if the same identification for the same area was recorded before.",
  ["histories"], "every pair of identification strings up to the stated length", "hash/key construction collisions are not sampled", ["src/common/histdb.c", "src/toss/ftntoss.c"], [("dupe check key", "src/toss/ftntoss.c, src/common/histdb.c")])
for d in P:
    print(json.dumps(d))
