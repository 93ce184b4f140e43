COMMON_ASSUMPTIONS = ["memory allocation does not fail", "logging has empty bodies"]
PROPS = {}
JOBS = []
def J(p, name, src, entry, **kw):
    JOBS.append(dict(p=p, name=p + "." + name, src=src, entry=entry, **kw))
HT = {"VF_HAVE_TIME": "1"}
J("P01", "hdr", "packet.c", "h_hdr_roundtrip", remove=["cf_defzone"], hdefs=HT, bounds="every 16-bit zone, net, node and point, every broken-down time 1900..2099, every password of up to 8 characters")
J("P01", "any", "packet.c", "h_hdr_any", remove=["cf_defzone"], hdefs=HT, bounds="every 58-byte header")
J("P01", "short", "packet.c", "h_hdr_short", remove=["cf_defzone"], hdefs=HT, bounds="every header cut short at 0..57 bytes")
J("P01", "fault", "packet.c", "h_hdr_fault", remove=["cf_defzone"], hdefs=HT, bounds="one failing write at any byte")

# ---------------------------------------------------------------- P09
for e in "copy copy2 copy3 copy4 copy5 append append2 printf range change_ext expand strip_crlf strip_space last case".split():
    J("P09", e, "misc.c", "h_" + e, unwind=14, unwindset={"h_*": 34, "add": 34, "verify": 34, "setup*": 34},
      bounds="destination size 1..8 with arbitrary content, sources up to 4 characters, arbitrary bytes")
    J("P09", e + "_deep", "misc.c", "h_" + e, unwind=18, unwindset={"h_*": 60, "add": 60, "verify": 60, "setup*": 60}, tier="thorough",
      hdefs={"L": "5", "D": "9"} if e in ("copy4", "copy5") else {"L": "8", "D": "14"}, bounds="destination size 1..14 with arbitrary content, sources up to 8 characters (copy4/copy5: 9 and 5)")
# ---------------------------------------------------------------- P10
J("P10", "step", "textlist.c", "h_step", unwind=10, bounds="one operation on two arbitrary lists of up to 3 lines")
J("P10", "ops3", "textlist.c", "h_ops", unwind=10, hdefs={"OPS": "3"}, bounds="every sequence of 3 operations on two lists")
J("P10", "chars", "textlist.c", "h_chars", unwind=10, hdefs={"NL": "2"}, bounds="2 lines of up to 2 arbitrary characters; chunk sizes 1..3")
J("P10", "chars3", "textlist.c", "h_chars", unwind=12, hdefs={"NL": "3"}, tier="thorough", weight=5, bounds="3 lines of up to 2 arbitrary characters; chunk sizes 1..3")
for e in ("search", "iter", "print"):
    J("P10", e, "textlist.c", "h_" + e, unwind=12, hdefs={"NL": "3"}, bounds="3 lines of up to 2 arbitrary characters; chunk sizes 1..3")
J("P10", "ops4", "textlist.c", "h_ops", unwind=10, hdefs={"OPS": "4"}, tier="thorough", bounds="every sequence of 4 operations on two lists")
# ---------------------------------------------------------------- P05 addresses
CFZ = ["cf_defzone", "cf_zone"]
D5 = {"znfp_get_number": 8, "vf_onumout": 7, "vf_onum32": 11, "str_append*": 9, "vf_doprnt": 12, "vf_ostr": 7}
N5 = {"VF_NUMDIG32": "5"}
N2 = {"VF_NUMDIG32": "2", "ZMAX": "99"}
def shapes(p, name, entry, full, **kw):
    """quick: fields 0..99 and some digit counts up to 5; thorough: all 16-bit values in one query"""
    J(p, name + "_99", "node.c", entry, hdefs=N2, bounds="fields 0..99", **kw)
    for d in full:
        J(p, name + "_d" + d.replace(",", ""), "node.c", entry, hdefs=dict(N5, DIGS=d), bounds="16-bit fields of %s decimal digits" % d, **kw)
    J(p, name + "_all", "node.c", entry, hdefs=N5, solver="cadical", tier="thorough", weight=9, timeout=1500, bounds="all 16-bit fields", **kw)
shapes("P05", "print_parse", "h_print_parse", ["5,5,5,5", "2,4,4,1"], remove=CFZ, unwind=29, unwindset=D5)
shapes("P05", "print_parse3d", "h_print_parse3d", ["5,5,5,5", "1,3,5,2"], remove=CFZ, unwind=26, unwindset=D5)
J("P05", "parse", "node.c", "h_parse", remove=CFZ, unwind=12, hdefs={"N": "8"}, bounds="every text of up to 8 characters")
J("P05", "bignum", "node.c", "h_bignum", remove=CFZ, unwind=22, bounds="every decimal number of up to 11 digits")
J("P05", "cmp", "node.c", "h_cmp", remove=CFZ, unwind=8, bounds="16-bit fields")
shapes("P06", "diff", "h_diff", ["5,5,5,5", "4,3,5,2"], shrink={"MAXINETADDR": 32}, remove=CFZ, unwind=28, unwindset=D5)
for k, t in (("3", "quick"), ("4", "thorough")):
    J("P06", "list_sorted" + k, "node.c", "h_list_sorted", remove=CFZ + ["node_to_asc_diff", "asc_to_node_diff", "xmalloc", "xfree"], unwind=int(k) + 2, unwindset={"h_list_sorted": 12, "lon_add": 12},
      hdefs={"DIFF_STUB": "1", "TYPED_ALLOC": "1", "VF_FSIZE": "12", "K": k, "ZMAX": "255"}, tier=t, bounds=k + " addresses, fields 0..255, sort offset 0..1")
    for e in ("print", "passive"):
        J("P06", "list_" + e + k, "node.c", "h_list_" + e, remove=CFZ + ["node_to_asc_diff", "asc_to_node_diff"], unwind=12,
          hdefs={"DIFF_STUB": "1", "VF_FSIZE": "12", "K": k, "ZMAX": "255"}, tier=t, bounds=k + " addresses, fields 0..255")
J("P06", "list_ops", "node.c", "h_list_ops", remove=CFZ, unwind=10, hdefs={"K": "4", "ZMAX": "3"}, bounds="every sequence of 4 list operations, fields 0..3")
shapes("P07", "pfnz", "h_pfnz", ["5,5,5,5", "2,4,3,1"], shrink={"MAXINETADDR": 32}, remove=CFZ, unwind=28, unwindset=D5)
J("P07", "pfnz_parse", "node.c", "h_pfnz_parse", remove=CFZ, unwind=12, bounds="every text of up to 8 characters")
# ---------------------------------------------------------------- P03 lines / P04
J("P03", "get_line", "message.c", "h_get_line", remove=CFZ, unwind=9, bounds="every packet content of up to 6 bytes, buffer of 4..7 bytes")
J("P03", "get_line_deep", "message.c", "h_get_line", remove=CFZ, unwind=14, hdefs={"N": "9", "SZ": "11"}, tier="thorough", bounds="every packet content of up to 9 bytes, buffer of 4..11 bytes")
BODY = CFZ + ["pkt_get_line", "strsave", "xmalloc", "xfree"]
for k, t in (("4", "quick"), ("5", "thorough")):
    for e in ("echo", "net"):
        J("P04", "body_%s%s" % (e, k), "message.c", "h_body", remove=BODY, unwind=24, shrink={"BUFFERSIZE": 64}, tier=t, weight=int(k), unwindset={"pkt_get_body_parse.1": int(k) + 2, "tl_*": 8, "vf_strlen": 28},
          hdefs=dict({"K": k, "BODY": "1"}, **({"ECHO": "1"} if e == "echo" else {})), bounds="messages of %s lines of twelve kinds in any order" % k)
for k, t, e, lk in (("3", "quick", "echo", "T_ORIGIN"), ("2", "quick", "echo", "T_TEXT"), ("3", "quick", "net", "T_TEAR2"), ("2", "quick", "net", "T_TEXT"),
                    ("3", "thorough", "echo", "T_PATH"), ("3", "thorough", "net", "T_VIA"), ("4", "thorough", "echo", "T_TEXT"), ("4", "thorough", "net", "T_TEXT")):
    J("P04", "last_%s%s_%s" % (e, k, lk[2:].lower()), "message.c", "h_body", remove=BODY, unwind=24, shrink={"BUFFERSIZE": 64}, tier=t, weight=int(k), unwindset={"pkt_get_body_parse.1": int(k) + 2, "tl_*": 8, "vf_strlen": 28},
      hdefs=dict(dict({"K": k, "BODY": "1", "NOLAST": "1", "LASTK": lk}, **({"NOTEAR": "1"} if lk == "T_TEXT" else {})), **({"ECHO": "1"} if "echo" in e else {})), bounds="messages of %s lines of twelve kinds in any order with an unterminated last line" % k)
for i, pat in enumerate(("2,2,2,2,2,2", "0,0,0,0,0,0", "1,0,2,0,1,0", "0,2,0,1,0,2")):
    J("P04", "put%d" % i, "message.c", "h_put", remove=CFZ, unwind=10, hdefs={"VF_FSIZE": "20", "PAT": pat}, bounds="sections of %s arbitrary one-character lines, each single line present or not" % pat)
J("P04", "put_fault", "message.c", "h_put_fault", remove=CFZ, unwind=10, bounds="one failing write")
# ---------------------------------------------------------------- P02, P03 headers, P34
MH = CFZ + ["parsedate", "date_tz"]
J("P03", "get_string", "packet.c", "h_get_string", remove=CFZ, hdefs=dict(HT, N="6"), unwind=10, bounds="every content of up to 6 bytes, buffers of 1..7 bytes")
J("P03", "get_string_deep", "packet.c", "h_get_string", remove=CFZ, hdefs=dict(HT, N="12"), unwind=16, tier="thorough", bounds="every content of up to 12 bytes, buffers of 1..13 bytes")
J("P03", "get_ints", "packet.c", "h_get_ints", remove=CFZ, hdefs=HT, unwind=10, bounds="every content of up to 4 bytes")
for w, fn in enumerate(("to", "from", "subj")):
    J("P03", "msg_hdr_" + fn, "packet.c", "h_get_msg_hdr", remove=MH, hdefs=dict(HT, MSGHDR="1", WHICH=str(w), LMAX="14", PRE="0", PRES="0", SUF="1", AREA="0"), shrink={"MSG_MAXNAME": 3, "MSG_MAXSUBJ": 5}, unwind=40,
      bounds="every message header whose %s field has 0..14 bytes; FTS-0001 limits scaled down to 3 and 5 (buffers of 12)" % fn)
    J("P02", "msg_" + fn, "packet.c", "h_msg_roundtrip", remove=MH, hdefs=dict(HT, MSGHDR="1", WHICH=str(w), LMAX="80", PRE="33", PRES="69", SUF="5", AREA="0", VF_FSIZE="140"), unwind=90,
      bounds="16-bit fields, %s field around the FTS-0001 limit (first characters fixed, the last 5 arbitrary)" % fn)
    J("P02", "msg_%s_short" % fn, "packet.c", "h_msg_roundtrip", remove=MH, hdefs=dict(HT, MSGHDR="1", WHICH=str(w), LMAX="80", PRE="0", PRES="0", SUF="5", AREA="0", VF_FSIZE="60"), unwind=90,
      bounds="16-bit fields, %s field of 0..5 arbitrary characters" % fn)
J("P02", "area", "packet.c", "h_msg_kludges", remove=MH, hdefs=dict(HT, MSGHDR="1", WHICH="0", LMAX="8", PRE="0", PRES="0", SUF="2", AREA="1"), unwind=60, bounds="area names of 0..3 characters")
J("P02", "kludges", "packet.c", "h_msg_kludges", remove=MH + ["znf1", "znf2"], hdefs=dict(HT, MSGHDR="1", WHICH="0", LMAX="8", PRE="0", PRES="0", SUF="1", AREA="0", VF_NUMDIG32="5", ZNSTUB="1"), unwind=60, unwindset=dict(D5, num=7), bounds="every 16-bit zone, net, node, point (address printing: P05)")
PF = CFZ + "sequencer passwd_lookup cf_addr cf_set_best cf_n_addr cf_p_seq_pkt cf_p_seq_toss cf_uplink str_expand_name pkt_put_hdr".split()
J("P34", "pkt", "packet.c", "h_pkt_file", remove=PF, hdefs=dict(HT, PKTFILES="1", VF_FSIZE="16"), shrink={"MAXPATH": 24}, unwind=26, bounds="one packet with two bytes of messages, any single failing file operation")
for q, mo in (("0,0,1", 1), ("0,1,0", 1), ("0,1,0", 2), ("0,1,1", 1), ("0,1,1", 2), ("0,0,0", 2)):
    J("P34", "outpkt_%s_%d" % (q.replace(",", ""), mo), "packet.c", "h_outpkt", remove=PF, hdefs=dict(HT, PKTFILES="1", VF_FSIZE="10", STEPS="3", SEQ=q, MAXO=str(mo), FAULTS="1", HDRSTUB="1"), shrink={"MAXPATH": 24, "BUFFERSIZE": 32}, unwind=26,
      unwindset={"outpkt_fopen.0": 4, "outpkt_close*": 4, "outpkt_open*": 4}, bounds="messages to links %s, %d open files, any single failing file operation" % (q, mo))
# ---------------------------------------------------------------- P22, P23 tossing
CFA = CFZ + "cf_addr cf_n_addr cf_addr_trav cf_set_zone cf_set_curr cf_set_best cf_uplink".split()
TP = dict(prog=["toss/ftntoss.c"])
for ns, nn, npas, wn, t in ((2, 3, 1, 1, "quick"), (1, 3, 0, 0, "quick"), (3, 4, 2, 1, "thorough")):
    J("P22", "seenby_%d%d%d%d" % (ns, nn, npas, wn), "toss.c", "h_seenby", remove=CFA, unwind=12, hdefs={"SEENBY": "1", "NS": str(ns), "NN": str(nn), "NPAS": str(npas), "WITHNEW": str(wn)}, tier=t, bounds="%d SEEN-BY entries, %d links, %d passive links, every 16-bit address" % (ns, nn, npas), **TP)
for ns in (0, 1, 3):
    J("P22", "path%d" % ns, "toss.c", "h_path", remove=CFA, unwind=12, hdefs={"SEENBY": "1", "NS": str(ns), "NPAS": "0", "WITHNEW": "0"}, slice=False, bounds="PATH of %d entries" % ns, **TP)
EM = CFA + "kludge_to_lon lon_to_kludge lon_to_kludge_sorted outpkt_open pkt_put_msg_hdr msg_put_msgbody passwd_lookup areasbbs_lookup areasbbs_changed areafix_init areafix_auth_check areafix_check_forbidden_area cmd_new_int uplinks_init uplinks_line_get tl_appendf znfp1 znfp2 znfp3 znf1 nf1 date kludge_get".split()
for ns, np, nn, npas, kill, t in ((1, 1, 2, 0, 0, "quick"), (2, 2, 2, 1, 1, "quick"), (2, 2, 3, 1, 0, "thorough")):
    J("P22", "echomail_%d%d%d%d%d" % (ns, np, nn, npas, kill), "toss.c", "h_echomail", remove=EM, unwind=18, hdefs={"ECHO": "1", "NS": str(ns), "NP": str(np), "NN": str(nn), "NPAS": str(npas), "KILL": str(kill)}, tier=t,
      bounds="%d SEEN-BY, %d PATH entries, %d links, %d passive, every 16-bit address, every option" % (ns, np, nn, npas), **TP)
J("P23", "echomail", "toss.c", "h_echomail_fault", remove=EM, unwind=18, hdefs={"ECHO": "1", "FAULTS": "1", "NS": "1", "NP": "1", "NN": "2", "NPAS": "0", "KILL": "0"}, bounds="2 links, one failing operation at any point", **TP)
J("P23", "netmail", "toss.c", "h_netmail_fault", remove=EM, unwind=18, hdefs={"ECHO": "1", "FAULTS": "1", "NS": "1", "NP": "1", "NN": "2", "NPAS": "0", "KILL": "0"}, bounds="one failing operation at any point", **TP)
J("P23", "unpack", "toss.c", "h_unpack", remove=CFA + "pkt_get_hdr pkt_get_int16 pkt_get_msg_hdr pkt_get_body_parse kludge_pt_intl msg_parse_origin msg_parse_msgid spyes_lookup do_netmail do_echomail outpkt_close GetTimeInfo znfp1 znfp2 znfp3 tmps_freeall".split(), shrink={"MAXPATH": 24}, unwind=26, hdefs={"UNPACK": "1", "NMSG": "2", "VF_FSIZE": "8"},
  bounds="packets of up to 2 messages of either kind, spied or not, one failing step at any point", **TP)
# ---------------------------------------------------------------- P17 checksums
for e, n in (("crc16", 3), ("ccitt", 3), ("crc32", 5), ("file", 2)):
    J("P17", e, "crc.c", "h_" + e, units=["crc16", "crc32"], unwind=12, hdefs={"N": str(n), "VF_FSIZE": "8"}, bounds="every sequence of %d bytes" % n + (", so every register state and every next byte" if e in ("crc16", "ccitt", "crc32") else ""))
for k in (0, 1, 2):
    J("P17", "split%d" % k, "crc.c", "h_split", units=["crc16", "crc32"], unwind=12, hdefs={"N": "2", "K": str(k), "VF_FSIZE": "8"}, bounds="every 2 bytes, split behind byte %d" % k)
J("P17", "crc32_signed", "crc.c", "h_crc32", units=["crc16", "crc32"], unwind=12, hdefs={"N": "5", "VF_FSIZE": "8", "SIGNED": "1"}, bounds="every sequence of 5 bytes given as signed char")
# ---------------------------------------------------------------- P31 words
for e in ("plain", "quoted", "line"):
    J("P31", e, "strtok.c", "h_" + e, units=["strtok_r"], unwind=9, bounds="every line of up to 6 characters, first three words")
    J("P31", e + "_deep", "strtok.c", "h_" + e, units=["strtok_r"], unwind=13, hdefs={"N": "10"}, tier="thorough", bounds="every line of up to 10 characters, first three words")
# ---------------------------------------------------------------- P32 addresses in mail headers
RA = "s_printf hosts_lookup cf_fqdn charset_is_7bit str_ftn_to_inet node_to_pfnz".split()
SH = {"MAXUSERNAME": 6, "MAXINETADDR": 5}
J("P32", "any", "rfcaddr.c", "h_any", remove=RA, shrink=SH, unwind=12, hdefs={"N": "7", "FORM": "0", "SP": "0", "MODE": "0"}, bounds="every field of up to 7 characters, buffers scaled down to 6 and 5")
J("P32", "any_deep", "rfcaddr.c", "h_any", remove=RA, shrink=SH, unwind=14, hdefs={"N": "9", "FORM": "0", "SP": "0", "MODE": "0"}, tier="thorough", bounds="every field of up to 9 characters, buffers scaled down to 6 and 5")
for f in range(7):
    for sp in ((0, 1) if f < 4 else (0,)):
        J("P32", "form%d%d" % (f, sp), "rfcaddr.c", "h_forms", remove=RA, shrink={"MAXUSERNAME": 16, "MAXINETADDR": 16}, unwind=20, hdefs={"N": "6", "FORM": str(f), "SP": str(sp), "MODE": "0"}, bounds="user, domain and name of 1..2 arbitrary characters in every supported form")
J("P32", "from_ftn", "rfcaddr.c", "h_from_ftn", remove=RA, shrink={"MAXUSERNAME": 16, "MAXINETADDR": 40}, unwind=20, unwindset={"vf_str*": 34, "str_copy*": 34, "eq": 40}, hdefs={"N": "4", "FORM": "0", "SP": "0", "MODE": "0"}, bounds="every name of up to 4 bytes")
J("P32", "from_ftn_long", "rfcaddr.c", "h_from_ftn_long", remove=RA, shrink={"MAXUSERNAME": 5, "MAXINETADDR": 40}, unwind=16, unwindset={"vf_str*": 34, "str_copy*": 34}, hdefs={"N": "7", "FORM": "0", "SP": "0", "MODE": "0"}, bounds="every name of up to 7 bytes, name buffer scaled down to 5")
for m in (0, 1, 2):
    J("P32", "round%d" % m, "rfcaddr.c", "h_round", remove=RA, shrink={"MAXUSERNAME": 16, "MAXINETADDR": 16}, unwind=26, hdefs={"N": "6", "FORM": "0", "SP": "0", "MODE": str(m)}, bounds="user, domain and name of up to 2 characters")
# ---------------------------------------------------------------- P30 dates
DT = dict(remove=["GetTimeInfo"])
for k in (0, 1, 2):
    J("P30", "offset%d" % k, "date.c", "h_offset", unwind=14, hdefs=dict(HT, SIGN=str(k), FMT="0", N="8"), bounds="every offset up to 23:59 (except one minute), every 32-bit time, every system time zone", **DT)
J("P30", "system", "date.c", "h_system", unwind=14, hdefs=dict(HT, SIGN="0", FMT="0", N="8"), bounds="every 32-bit time, every system offset up to 14 hours", **DT)
for k in (0, 1, 2):
    J("P30", "format%d" % k, "date.c", "h_format", unwind=34, hdefs=dict(HT, SIGN="0", FMT=str(k), N="8"), bounds="every broken-down time 1970..2099", **DT)
J("P30", "rfc_tz", "date.c", "h_rfc_tz", unwind=14, hdefs=dict(HT, SIGN="0", FMT="0", N="8"), bounds="every text of up to 8 characters", **DT)
# ---------------------------------------------------------------- P33 tables, P35 areas
TB = "cf_getline xstrtok strtok xfopen fopen_expand_name asc_to_node znfp1 znfp2 znfp3 strsave strsave2".split()
HS = {"VF_FSIZE": "4"}
J("P33", "passwd", "tables.c", "h_passwd", remove=TB + ["cf_p_passwd"], unwind=10, hdefs=dict(HS, T_PASSWD="1"), bounds="3 entries, every key and address")
J("P33", "passwd_bad", "tables.c", "h_passwd", remove=TB + ["cf_p_passwd"], unwind=10, hdefs=dict(HS, T_PASSWD="1", BAD="0"), bounds="3 entries, the first one with an illegal address, every key and address")
J("P33", "hosts_bad", "tables.c", "h_hosts", remove=TB + ["cf_p_hosts", "cf_hostsdomain"], unwind=10, hdefs=dict(HS, T_HOSTS="1", BYNAME="0", LINES="2", BAD="0"), bounds="2 entries, the first one with an illegal address, every address")
J("P33", "hosts_node", "tables.c", "h_hosts", remove=TB + ["cf_p_hosts", "cf_hostsdomain"], unwind=10, hdefs=dict(HS, T_HOSTS="1", BYNAME="0", LINES="2"), bounds="2 entries with names of up to 2 characters, every address")
J("P33", "hosts_name", "tables.c", "h_hosts", remove=TB + ["cf_p_hosts", "cf_hostsdomain"], unwind=10, hdefs=dict(HS, T_HOSTS="1", BYNAME="1", LINES="2"), bounds="2 entries with names of up to 2 characters, every name")
for k in ("aaa", "rafa"):
    J("P33", "aliases_" + k, "tables.c", "h_aliases", remove=TB + ["wildmatch"], unwind=12, hdefs=dict(HS, T_ALIASES="1", LINES=str(len(k)), KINDS='"%s"' % k), bounds="lines %s (a entry, r rfc2ftn, f ftn2rfc), one-character names, every key and address" % k)
for k, bad, g in (("aaa", -1, 0), ("aauu", -1, 0), ("aauu", -1, 1), ("aagg", -1, 1), ("aa", -1, 1), ("aau", 2, 0)):
    J("P33", "aka_%s%d%s" % (k, g, "b" if bad >= 0 else ""), "tables.c", "h_aka", remove=TB, unwind=14, hdefs=dict(dict(HS, T_CONFIG="1", LINES=str(len(k)), KINDS='"%s"' % k, BAD=str(bad), DEF="-1"), **({"GATE": "1"} if g else {})), bounds="configuration lines %s (a Address, u Uplink, g GateAddress), every address and destination" % k)
for d in (-1, 1):
    J("P33", "zones%d" % (d + 1), "tables.c", "h_zones", remove=TB, unwind=20, hdefs=dict(HS, T_CONFIG="1", LINES="3", KINDS='"aaa"', BAD="-1", DEF=str(d)), bounds="3 zone lines, zones 1..9")
AR = TB + "cf_p_areas cf_defzone cf_get_string".split()
for k, g, aka, hl in (("php", 0, 0, 1), ("hnp", 0, 0, 1), ("xhp", 0, 0, 1), ("hp", 0, 0, 0), ("php", 1, 0, 1), ("hnp", 1, 0, 1), ("xhp", 1, 0, 1), ("aap", 0, 1, 1)):
    J("P35", "areas_%s%d%d%d" % (k, g, aka, hl), "tables.c", "h_areas", remove=AR, shrink={"MAXPATH": 6}, unwind=14, hdefs=dict(HS, T_AREAS="1", LINES=str(len(k)), KINDS='"%s"' % k, BYGROUP=str(g), AKA=str(aka), HL=str(hl), OPT="0", MISS="0", **({"NOROUND": "1"} if k[0] == "x" else {})), bounds="tables of kinds %s (p plain, h hierarchy, n excluded, x excluded hierarchy, a with address), table names of one character, looked up names of up to 2" % k)
J("P35", "areas_hp_long", "tables.c", "h_areas", remove=AR, shrink={"MAXPATH": 6}, unwind=14, hdefs=dict(HS, T_AREAS="1", LINES="2", KINDS='"hp"', BYGROUP="0", AKA="0", HL="1", W="2", OPT="0", MISS="0"), bounds="a hierarchy with a name of up to 2 characters and a plain entry, looked up names of up to 2")
for o in range(18):
    J("P35", "opt%d" % o, "tables.c", "h_options", remove=AR, unwind=14, hdefs=dict(HS, T_AREAS="1", LINES="3", KINDS='"ppp"', BYGROUP="0", AKA="0", HL="1", OPT=str(o), MISS="0"), bounds="option %d with a one-digit argument" % o)
    if o < 9: J("P35", "miss%d" % o, "tables.c", "h_options", remove=AR, unwind=14, hdefs=dict(HS, T_AREAS="1", LINES="3", KINDS='"ppp"', BYGROUP="0", AKA="0", HL="1", OPT=str(o), MISS="1"), bounds="option %d without its argument" % o)
# ---------------------------------------------------------------- P16 patterns
def cstr(x): return '"%s"' % x.replace("\\", "\\\\").replace("\xe4", "\\344")
def pats(*l): return ", ".join(cstr(x) for x in l)
for n, pp in enumerate((["a*B", "*.x", "\xe4*"], ["[ab]c", "?[^B-d]", "[1a-y]*"], ["\\*\\a", "*[^a]", "a?*"], ["*a*b"], ["**?a"], ["x*y*z"], ["*aab"])):
    for ic in (0, 1):
        J("P16", "match%d%s" % (n, "i" * ic), "wildmat.c", "h_match", flags=["--paths", "lifo"], timeout=150, units=["wildmat"], unwind=9, hdefs={"MATCH": "1", "IC": str(ic), "NS": str((4 - ic if n < 3 else 3)), "NP": "8", "PATS": pats(*pp)}, bounds="patterns %s, every name of up to %d arbitrary characters" % (" ".join(pp), (4 - ic if n < 3 else 3)))
for n, pp in enumerate((["a*B", "*.x"], ["[ab]c", "?[^B-d]"], ["*a*b"], ["x*y*z"], ["*aab"])):
    J("P16", "match%d_deep" % n, "wildmat.c", "h_match", flags=["--paths", "lifo"], tier="thorough", units=["wildmat"], unwind=12, hdefs={"MATCH": "1", "IC": "0", "NS": "5", "NP": "8", "PATS": pats(*pp)}, bounds="patterns %s, every name of up to 5 arbitrary characters" % " ".join(pp))
mp = ["a\\", "[a", "[^", "*[a-", "*\\", "[", "?[^]"]
J("P16", "malformed", "wildmat.c", "h_match", flags=["--paths", "lifo"], timeout=150, units=["wildmat"], unwind=9, hdefs={"MATCH": "1", "IC": "0", "NS": "3", "MAL": "1", "NP": "8", "PATS": pats(*mp)}, bounds="malformed patterns %s, every name of up to 3 characters" % " ".join(mp))
AC = "cf_getline xfopen fopen_expand_name asc_to_node znfp1 znfp2 znfp3 strsave strsave2 strtok wildmat wildmatch s_rfcaddr_to_asc".split()
for k, sw in (("eee", 0), ("Nee", 1), ("eNe", 0), ("FRe", 0), ("eFe", 0)):
    J("P16", "acl_%s%d" % (k, sw), "wildmat.c", "h_acl", remove=AC + ["list_init", "list_free", "xstrtok"], unwind=12, hdefs=dict(HS, ACL="1", KINDS='"%s"' % k, SWAP=str(sw)), bounds="lines %s, one-letter patterns, group lists of three patterns, two look-ups" % k)
for k, sw in (("Fee", 0), ("FNe", 1), ("eFe", 0)):
    J("P16", "ftnacl_%s%d" % (k, sw), "wildmat.c", "h_ftnacl", tier="thorough" if k[0] == "e" else "quick", remove=AC + ["xstrtok"], unwindset={"ftnacl_lookup": 5}, unwind=12, hdefs=dict(HS, ACL="1", FTN="1", KINDS='"%s"' % k, SWAP=str(sw)), bounds="lines %s, one-letter patterns, group lists of three patterns, two look-ups" % k)
J("P16", "split", "wildmat.c", "h_split", remove=["strsave", "xmalloc"], unwind=8, hdefs={"SPLIT": "1", "N": "4"}, bounds="every list of up to 4 characters")
