#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
def P(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}
HOOK = "optional: cfg ripcalc_batch serves many command lines in one process (speed only; every alarm is confirmed on the unhooked binary)"
props = [
P("C01", "Network summary is arithmetically exact for every address and mask",
  "For every IPv4 or IPv6 address and every subnet mask, contiguous or lopsided, the default report states exactly the address given, its mask (with the prefix length if and only if the mask is contiguous), the complement of the mask, and the network base (address AND mask). HostMin and HostMax are the second-lowest and second-highest member addresses and are replaced by 'no hosts' exactly when the network has fewer than four members; Broadcast is the highest member, replaced by 'no broadcast' exactly when the network has a single member. Hosts/Net is exactly 2^(host bits) - 2, printed in full for any size, and replaced by 'no hosts/net' exactly when that is not positive.",
  ["inputs"], "all addresses x all masks of both families (2^64 IPv4 pairs, 2^256 IPv6 pairs), including masks with holes",
  "test_ipv4_new_with_mask/test_ipv6_new_with_mask check about five hand-picked masks per family and never look at the report; carries across the 64-bit halves, odd hole patterns and the ends of the address space are not reached.",
  ["src/cmds/show_net.rs", "src/net.rs", "src/bit_manip.rs", "src/cidr.rs", "src/addr.rs"],
  [("output_network prints the rows", "src/cmds/show_net.rs:output_network"), ("first_host_addr/last_host_addr/broadcast_addr/host_count", "src/net.rs"), ("unravel_address/weave_address for lopsided masks", "src/bit_manip.rs"), ("prefix_from_subnet_mask_bytes table", "src/cidr.rs")],
  ["stdout of 'ripcalc NET...'"], [("IpNetwork", "base address, mask, prefix if contiguous", "src/net.rs")], HOOK),
P("C02", "Enumerate lists exactly the members of a network, once each, in order",
  "Enumerating a network prints every address that agrees with its base on all mask bits, each exactly once, in ascending order, and nothing else, for contiguous and lopsided masks and for networks touching either end of the address space.",
  ["inputs"], "all networks small enough to be listed (up to 2^13 members are generated), both families, any position of the host bits",
  "Two unit tests step through four 16-member networks; no test reaches the top of the address space, the 64-bit boundary, scattered host bits or single-member networks.",
  ["src/cmds/enumerate.rs", "src/bit_manip.rs", "src/net.rs"],
  [("NetworkIter counts in unraveled space and weaves back", "src/cmds/enumerate.rs"), ("weave_address", "src/bit_manip.rs")],
  ["stdout of 'ripcalc --enumerate NET...'"], None, HOOK),
P("C03", "Minimize yields the unique smallest sorted CIDR cover of the input",
  "Minimizing any list of CIDR networks of one family prints the unique smallest list of CIDR networks that covers exactly the same addresses: nothing is added, nothing is lost, no printed network contains or overlaps another, and no two printed networks could be joined. The list is in ascending order and does not depend on the order or repetition of the arguments, and minimizing the result again changes nothing.",
  ["inputs"], "all finite lists of CIDR networks of one family, in every order and with any repetitions",
  "The unit tests minimize two hand-written lists of at most ten networks; cascading merges, nested duplicates, the ends of the address space and argument order are not covered.",
  ["src/cmds/minimize.rs", "src/net.rs"],
  [("elimination of covered networks", "src/cmds/minimize.rs:minimize_subnets"), ("merge-to-fixpoint loop", "src/cmds/minimize.rs:minimize_subnets"), ("is_superset_of", "src/net.rs")],
  ["stdout of 'ripcalc --minimize NET...'"], [("filtered_subnets", "the set of networks still standing", "src/cmds/minimize.rs")], HOOK),
P("C04", "Minimize preserves the address set for lopsided networks too",
  "Minimizing any list of networks, lopsided ones included, prints networks whose union is exactly the union of the inputs. No printed network is contained in another, no two printed networks with the same mask are neighbours that together form one network, there are never more networks than were given, and the result is sorted, idempotent and independent of the order and repetition of the arguments.",
  ["inputs"], "all finite lists of networks of one family with arbitrary masks",
  "test_minimize_mixed tries two four-element lists that all share one mask; networks with crossing masks, where a merge swallows a third network, are never generated.",
  ["src/cmds/minimize.rs", "src/net.rs", "src/bit_manip.rs"],
  [("is_superset_of on masks", "src/net.rs"), ("next_subnet_base_addr in unraveled space", "src/net.rs"), ("single-bit merge", "src/cmds/minimize.rs")],
  ["stdout of 'ripcalc --minimize NET...'"], None, HOOK),
P("C05", "Derange turns an address range into its unique minimal CIDR cover",
  "For any two addresses of one family, in either order, derange prints the unique smallest list of CIDR networks that covers exactly the inclusive range between them, in ascending order. This includes single-address ranges, ranges that begin at the lowest or end at the highest address, and the whole address space.",
  ["inputs"], "all pairs of addresses of one family",
  "Four ranges are tested, all far from the ends of the address space; a range ending at the highest address is never tried.",
  ["src/cmds/derange.rs", "src/net.rs", "src/addr.rs"],
  [("range_to_subnets grows and anchors networks", "src/cmds/derange.rs"), ("last_addr_of_subnet/next_subnet_base_addr", "src/net.rs")],
  ["stdout of 'ripcalc --derange A B'"], None, HOOK),
P("C06", "CIDR resize partitions into subnets or gives the one enclosing supernet",
  "Resizing a CIDR network to a longer prefix prints, in ascending order, exactly the networks of that prefix that partition it: they are disjoint, number 2^(difference), and together contain every address of the original and nothing else. Resizing to a shorter prefix prints the single enclosing network of that prefix, and resizing to the same prefix prints the network itself. The original and every result are described with correct base, host range, broadcast and host count.",
  ["inputs"], "all CIDR networks and target prefixes of both families whose result has at most 2^10 subnets",
  "Three CIDR resizes per family are tested, by comparing network values only; the printed blocks, their numbering and the ends of the address space are not checked.",
  ["src/cmds/resize.rs", "src/cmds/show_net.rs", "src/net.rs"],
  [("resize_network", "src/cmds/resize.rs"), ("resize_and_output headings", "src/cmds/resize.rs")],
  ["stdout of 'ripcalc --resize NET SUBNET'"], None, HOOK),
P("C07", "Resize between lopsided masks keeps network numbers",
  "For any original and target mask, call a network's number the string of its network bits read from most to least significant. Every network printed by a resize has exactly the target mask; a target with more network bits yields, in order, exactly the networks whose numbers are the original's number followed by every possible string of leading host bits, a target with fewer yields the one network whose number is the corresponding leading part, and one with equally many yields the network with the same number. Consequently the number of results is 2^(additional network bits), they are pairwise disjoint, and resizing to an equally large mask and back returns the original network.",
  ["inputs"], "all networks and all target masks, contiguous or with holes, with at most 2^10 results",
  "Three lopsided targets per family are tested, all from one contiguous original; lopsided originals are never resized.",
  ["src/cmds/resize.rs", "src/bit_manip.rs"],
  [("unravel_address from the old mask", "src/bit_manip.rs"), ("weave_address into the new mask", "src/bit_manip.rs"), ("resize_network", "src/cmds/resize.rs")],
  ["stdout of 'ripcalc --resize NET SUBNET'"], None, HOOK),
P("C08", "Split hands out disjoint, in-range, smallest-possible slices",
  "When a CIDR network is split and the requests fit, one slice is printed per requested host count, in the order requested: each slice is a CIDR network inside the network being split, no two slices share an address, and each is the smallest CIDR network whose number of usable hosts (addresses minus two) is at least the request. Each slice's printed host range, broadcast and host count are correct.",
  ["inputs"], "all CIDR networks and all lists of non-negative host counts (any length, any magnitude, any order) that fit",
  "Five lists of at most five counts per family are tested by value; longer or unsorted lists, counts at powers of two, zero counts and the printed report are not.",
  ["src/cmds/split.rs", "src/net.rs"],
  [("descending sort with index bookkeeping", "src/cmds/split.rs:split_subnet"), ("host_count comparison while growing", "src/cmds/split.rs:split_subnet"), ("output_split pairs counts with slices", "src/cmds/split.rs:output_split")],
  ["stdout of 'ripcalc --split NET N...'"], [("index_to_subnet", "slice assigned to each request", "src/cmds/split.rs")], HOOK),
P("C09", "Split accounts for every address: slices plus unused equal the network",
  "When the requests of a split fit, the slices and the networks listed as unused together partition the network being split: every address of it is in exactly one of them and no address outside it is listed. The unused networks are CIDR networks in ascending order and the list is the shortest possible for the addresses left over; when nothing is left over, none is listed.",
  ["inputs"], "all CIDR networks and all fitting lists of host counts, including lists that use the network up completely and networks at the end of the address space",
  "No test looks at the list of unused networks at all.",
  ["src/cmds/split.rs", "src/cmds/derange.rs"],
  [("max used address + 1 .. last address", "src/cmds/split.rs:output_split"), ("range_to_subnets", "src/cmds/derange.rs")],
  ["stdout of 'ripcalc --split NET N...'"], None, HOOK),
P("C10", "Split reports success exactly when the requests fit",
  "A split succeeds (slices without complaint, exit status 0) if and only if the smallest possible slices for all requests fit into the CIDR network together, that is, their sizes sum to no more than its size. Otherwise it says that the network is too small or that not enough addresses are available, and lists no unused networks.",
  ["inputs"], "all CIDR networks (including /0, host networks and networks ending at the highest address) and all lists of host counts around the exact capacity",
  "The tests only cover one count that exceeds the whole address space; exact fits, off-by-one overflows and single requests larger than the network are not tried.",
  ["src/cmds/split.rs"],
  [("split_subnet returns None when the space is exhausted", "src/cmds/split.rs"), ("containment check before listing unused networks", "src/cmds/split.rs:output_split")],
  ["stdout and exit status of 'ripcalc --split NET N...'"], None, HOOK),
P("C11", "All notations for the same network are interchangeable in every mode",
  "A network may be written with a prefix length, with a subnet mask, or with a Cisco wildcard (complement of the mask after a leading minus; in ADDRESS/-N, N counts host bits instead), and the address part may carry any host bits. In every mode (report, enumerate, minimize, split and resize, whose target may likewise be a prefix length, a mask or a wildcard) all notations that denote the same network, and for the report the same address, produce byte-for-byte the same output and exit status.",
  ["inputs"], "all networks x all notation pairs x all modes and remaining arguments",
  "No test parses a network specification; every unit test constructs networks directly.",
  ["src/cmds/mod.rs", "src/net.rs", "src/cidr.rs", "src/cmds/resize.rs"],
  [("parse_netspec and its four patterns", "src/cmds/mod.rs"), ("parse_subnet", "src/cmds/mod.rs"), ("mask <-> prefix conversion", "src/cidr.rs")],
  ["stdout and exit status of every mode"], None, HOOK),
P("C12", "Every printed address is standard text and reads back as the same address",
  "Every address the program prints is standard IPv4 dotted-decimal or IPv6 text that any standard parser reads as exactly the address meant; IPv6 text is lower-case without leading zeros, with the first longest run of zero groups replaced by '::'. Feeding any printed address back to the program yields the same address again.",
  ["inputs"], "all 2^32 IPv4 and 2^128 IPv6 addresses, in particular every pattern of zero groups",
  "Four IPv4 and eight IPv6 addresses are formatted in the tests; zero runs at the end, ties and single zero groups at the edges are mostly unreached, and no test parses what was printed.",
  ["src/addr.rs"],
  [("Display for Ipv6Address (zero-run search)", "src/addr.rs"), ("FromStr for Ipv6Address", "src/addr.rs"), ("Display/FromStr for Ipv4Address", "src/addr.rs")],
  ["stdout of enumerate, derange, report"], None, HOOK),
P("C13", "Address text is read by its standard meaning or refused, never misread",
  "Every standard spelling of an address (dotted-decimal IPv4; IPv6 with or without leading zeros, in upper or lower case, with '::' standing for any run of one or more zero groups at the start, middle or end) is accepted wherever an address is expected and read as its standard value. Text that is not an address (wrong number of parts, a part out of range, a foreign character, two '::', mixed families, a prefix length beyond the family's maximum) is refused with exit status 1, and no text is ever read as an address other than the one it denotes.",
  ["inputs"], "all spellings of all addresses, and all near-miss and arbitrary strings, in the report, derange, enumerate and resize",
  "About 25 hand-written strings are parsed by the tests, and the patterns that guard network specifications are not tested at all.",
  ["src/addr.rs", "src/cmds/mod.rs"],
  [("FromStr for Ipv4Address/Ipv6Address", "src/addr.rs"), ("network specification patterns", "src/cmds/mod.rs"), ("parse_addr, parse_subnet range checks", "src/cmds/mod.rs")],
  ["stdout and exit status of report, derange, enumerate, resize"], None, HOOK),
P("C14", "No command line makes the program crash, hang or half-succeed",
  "For every sequence of arguments, of any bytes and any length, the program terminates by itself with exit status 0 or 1, never by panic, signal, runaway output or endless loop. Exit status 1 is always accompanied by a message; when the report, minimize, derange or resize refuses its arguments it prints no results.",
  ["inputs"], "all argument vectors (arbitrary bytes, malformed and boundary values, any option, any count), except requests whose correct answer is itself too large to print",
  "No test runs the command-line entry points at all.",
  ["src/main.rs", "src/cmds/mod.rs", "src/cmds/derange.rs", "src/cmds/split.rs", "src/cmds/resize.rs", "src/cmds/show_net.rs"],
  [("do_main dispatch", "src/main.rs"), ("error returns of each mode", "src/cmds/*.rs"), ("checked address arithmetic", "src/addr.rs")],
  ["exit status, signal, stdout, stderr"], None, HOOK),
P("C15", "The binary column always spells the address printed beside it",
  "In the report, in resize and in split, the binary column of every row is exactly the address printed in that row: all bits, most significant first, dotted per IPv4 byte or with a colon per IPv6 group. Each row is one line, with the value starting in a fixed column and the binary in another fixed column for the family, as shown in the documentation.",
  ["inputs"], "all addresses and masks of both families in all three modes that print reports",
  "No test looks at printed output.",
  ["src/cmds/show_net.rs", "src/bit_manip.rs", "src/console.rs"],
  [("output_binary_ipv4_address/output_binary_ipv6_address", "src/cmds/show_net.rs"), ("bytes_to_binary", "src/bit_manip.rs"), ("write_in_color padding", "src/console.rs")],
  ["stdout of report, resize, split"], None, HOOK),
P("C16", "Colour changes nothing but colour, and marks network and host bits right",
  "With colours forced on, or on a terminal of whatever width, the output of every mode with the escape sequences removed is byte-for-byte the output without colours, and the exit status is the same. In the coloured Address row every bit covered by the mask has one style and every other bit a second, different style; in the Network row, also of the blocks that resize and split print, the same holds apart from leading class bits. The bits of the other addresses all look like host bits, those of the Netmask row share a third style. --color-test succeeds and shows each of the sixteen colours once, in that colour, under its name.",
  ["inputs", "configurations"], "all command lines x colours on/off; all masks for the bit styles",
  "No test runs with colours or inspects printed text.",
  ["src/console.rs", "src/cmds/show_net.rs"],
  [("write_in_color", "src/console.rs"), ("per-bit colour choice", "src/cmds/show_net.rs")],
  ["stdout with CLICOLOR_FORCE=1 vs. plain"], None, HOOK),
P("C17", "IPv4 class is reported and highlighted exactly when the mask fixes it",
  "The IPv4 class shown beside Hosts/Net is A, B, C, D or E according to whether the network's leading bits are 0, 10, 110, 1110 or 1111, and is shown exactly when all of those deciding bits are covered by the mask and the network has usable hosts; IPv6 networks never show a class. With colours on, exactly those deciding bits of the Network row carry the class style, and none do when the mask does not cover them.",
  ["inputs"], "all IPv4 networks with any mask, in report, resize and split; IPv6 as the negative case",
  "No test covers classes.",
  ["src/cmds/show_net.rs"],
  [("output_ipv4_class", "src/cmds/show_net.rs"), ("class highlighting in output_binary_ipv4_address", "src/cmds/show_net.rs")],
  ["stdout of report, resize, split, plain and coloured"], None, HOOK),
P("C18", "Networks given together are processed independently and in order",
  "Reporting on several networks prints exactly what reporting on each alone would print, in argument order, separated by one empty line; enumerating several prints the concatenation of the single listings, where a malformed network is skipped with a message and exit status 1 without disturbing the others. Families may be mixed in these two modes.",
  ["inputs", "histories"], "all sequences of networks of any length, with repetition, mixed families and malformed members",
  "No test passes more than one network through a command.",
  ["src/cmds/show_net.rs", "src/cmds/enumerate.rs"],
  [("loop over specs with separator", "src/cmds/show_net.rs:show_net"), ("loop over arguments, sticky return code", "src/cmds/enumerate.rs:enumerate")],
  ["stdout and exit status of report and enumerate"], None, HOOK),
P("C19", "Same command line, same output: across runs and across build profiles",
  "Running the same command line again, in a fresh process, prints byte-for-byte the same output with the same exit status, whatever the process's hash seeds, environment variables (other than those that switch colours), working directory, standard input, the contents of any file, the date and the clocks, its process and user numbers, the host's name, the number of processors, and random numbers. The development build (overflow-checked) and the release build that is packaged behave identically on every command line.",
  ["inputs", "configurations", "histories"], "all command lines x repeated runs x {development, release} builds",
  "Tests run once, in the development profile only; hash-order dependence and wrap-around differences need repeated runs and the release build.",
  ["src/cmds/minimize.rs", "src/cmds/split.rs", "src/addr.rs", "Cargo.toml"],
  [("sort after hash-set iteration", "src/cmds/minimize.rs"), ("index sort after hash-map iteration", "src/cmds/split.rs"), ("checked arithmetic", "src/addr.rs")],
  ["stdout and exit status of repeated dev/release processes"]),
P("C20", "Output that could not be written is never reported as success",
  "If standard output fails at any point while results are being printed (reader gone, device full, file-size limit), whatever the mode, the program ends with a non-zero exit status, and the bytes that did arrive are a prefix of the complete output. If everything was written, the exit status is that of the undisturbed run. Nor does it become a success when messages cannot be written to standard error; what standard output then carries is the beginning of the usual results, and all of it where there are no messages.",
  ["fault_sequences", "inputs"], "all command lines that print results x every byte offset at which writing starts to fail",
  "No test injects output faults.",
  ["src/console.rs", "src/cmds/*.rs", "src/main.rs"],
  [("print!/println! fail loudly", "src/cmds/*.rs"), ("every output ends in a newline so that nothing stays buffered", "src/cmds/show_net.rs")],
  ["exit status and bytes received through a limited pipe/file"]),
P("C21", "Modes agree with one another about the same addresses",
  "The modes never contradict each other: deranging a CIDR network's first and last address gives back that network; its enumeration begins with Network and HostMin, ends with HostMax and Broadcast and has Hosts/Net + 2 lines; minimizing the members of a network, its resize subnets, or the slices and unused networks of a split gives back the network; and deranging a range equals minimizing its single addresses.",
  ["inputs", "histories"], "all networks, ranges and follow-up invocations that feed one mode's output into another",
  "Each unit test exercises one function in isolation; no test feeds one mode's output to another.",
  ["src/cmds/derange.rs", "src/cmds/minimize.rs", "src/cmds/enumerate.rs", "src/cmds/resize.rs", "src/cmds/split.rs", "src/cmds/show_net.rs"],
  [("shared network arithmetic", "src/net.rs"), ("text format shared by printers and parsers", "src/addr.rs, src/cmds/mod.rs")],
  ["stdout of chained invocations"], None, HOOK),
P("C22", "Options, argument counts and address families are enforced consistently",
  "Every mode's short and long option behave identically, and only as the first argument; anything else that merely resembles an option (abbreviated, in capitals, with something attached) is refused. Too few arguments (or, for derange and resize, too many) print the usage text and exit with status 1 without results; --help, whatever follows it, prints the usage text, which names every mode's short and long option, and exits with 0; what follows --color-test makes no difference. Minimize, derange and resize refuse to combine IPv4 with IPv6, in any position, with exit status 1 and no results, and resize refuses a prefix length beyond the family's maximum.",
  ["inputs"], "all modes x argument counts x placements of the deviating argument",
  "No test covers option dispatch, argument counts or family mixing.",
  ["src/main.rs", "src/cmds/mod.rs", "src/cmds/derange.rs", "src/cmds/resize.rs", "src/cmds/minimize.rs"],
  [("do_main dispatch", "src/main.rs"), ("parse_same_family_netspecs", "src/cmds/mod.rs"), ("family checks in derange and resize", "src/cmds/derange.rs, src/cmds/resize.rs")],
  ["stdout, stderr, exit status"], None, HOOK),
P("C23", "A network of any size is listed from its start, as far as anyone reads",
  "Enumerating works for networks of every size, up to all 2^128 addresses: the addresses arrive in order from the first one on, as they are read; whatever a reader has got when it stops reading is exactly the beginning of the complete listing, and the program then ends by itself without claiming success; told to stop by the usual signals (interrupt, hang-up, quit, termination) it stops as well. Neither time nor memory needed for the first addresses depends on the size of the network.",
  ["inputs", "fault_sequences"], "all networks (any number of host bits, both families, lopsided ones too) x every number of bytes after which the reader leaves",
  "The unit tests only iterate over four networks of 16 addresses.",
  ["src/cmds/enumerate.rs", "src/net.rs", "src/bit_manip.rs"],
  [("NetworkIter yields one address at a time", "src/cmds/enumerate.rs"), ("last_addr_of_subnet / unravel_address for large networks", "src/net.rs, src/bit_manip.rs")],
  ["bytes received through a pipe from 'ripcalc --enumerate NET...', exit status"]),
P("C24", "One unreadable argument spoils the whole command, wherever it stands",
  "If any argument of the report, minimize, derange, resize or split cannot be read as what its place calls for (a network, an address, a mask or prefix length of the right family, a number of hosts), the command is refused as a whole: exit status 1, a message on standard error and nothing on standard output, however many valid arguments stand before or after the unreadable one. (Enumerating is the documented exception: it skips unreadable networks, see C18.)",
  ["inputs"], "all command lines of these modes with one or more unreadable arguments in any position",
  "No test passes unreadable text to a mode, let alone next to valid arguments.",
  ["src/cmds/show_net.rs", "src/cmds/mod.rs", "src/cmds/split.rs", "src/cmds/resize.rs", "src/cmds/derange.rs", "src/cmds/minimize.rs"],
  [("all arguments are parsed before anything is printed", "src/cmds/show_net.rs:show_net"), ("parse_same_family_netspecs", "src/cmds/mod.rs"), ("host counts parsed first", "src/cmds/split.rs:split")],
  ["stdout, stderr, exit status"], None, HOOK),
P("C25", "Results on standard output, messages on standard error, no control characters",
  "Standard output carries results and nothing else: in each mode every line is one of the lines that the mode prints (networks, addresses, rows, headings; split also says there that a split is impossible). The usage, refusals and complaints go to standard error, which stays empty when everything succeeded (the usage asked for with --help excepted) and carries a message whenever the exit status is 1. Both streams are UTF-8 ending in a line break, and no argument, whatever bytes it contains, can make the program send a control character (an escape sequence, a carriage return, a stray line) to either stream; uncoloured output contains none at all.",
  ["inputs"], "all argument vectors, including arguments with control characters, escape sequences and invalid UTF-8",
  "No test looks at the two output streams.",
  ["src/main.rs", "src/cmds/show_net.rs", "src/cmds/mod.rs", "src/cmds/enumerate.rs", "src/cmds/split.rs", "src/addr.rs"],
  [("usage on standard error", "src/main.rs:usage"), ("messages quote arguments with escapes", "src/cmds/mod.rs, src/addr.rs: Display of the parse errors"), ("eprintln in every mode", "src/cmds/*.rs")],
  ["stdout and stderr separately, exit status"], None, HOOK),
P("C26", "Output arrives completely and in order, however the system takes it",
  "When the system accepts only a part of the bytes offered to a write on standard output, or interrupts writes, at any point and any number of times, the complete output still arrives: every byte once and in order, with the usual exit status. When writing fails, for good (I/O error, full device, quota, size limit, broken pipe) or for the moment (a non-blocking pipe that is full), what arrived is the beginning of the complete output and the exit status is not 0 unless all of it arrived.",
  ["fault_sequences", "schedules", "inputs"], "all command lines x all sequences of partial, interrupted and failing writes",
  "Tests never write through a file that accepts less than it was offered.",
  ["src/console.rs", "src/cmds/*.rs", "src/main.rs"],
  [("print!/println! write everything", "src/cmds/*.rs"), ("colour escapes interleaved with text on the same stream", "src/console.rs, src/main.rs:color_test")],
  ["bytes and exit status of a process whose write(2) takes less than offered (LD_PRELOAD)"]),
P("C27", "The Debian package contains what was built, and says so truthfully",
  "contrib/debianize.py, run in a checkout with a built target/release/ripcalc, either makes ripcalc_<number of commits>_<architecture>.deb in the top directory of the checkout and prints its name, or leaves no package behind and exits with a status other than 0. The package is a well-formed binary package: debian-binary, control.tar.gz and data.tar.xz in that order; everything owned by root and readable by everyone, whatever the umask; the program executable, with the loaded contents of the one that was built, and stripped; the documentation in place, compressed without a time stamp; md5sums and Installed-Size right for exactly the packaged files; version = number of commits; architecture = that of the program, never another's; and dependencies on libc and libgcc of at least the highest version the program requires, compared numerically, and only if it requires any. This does not depend on where or how the script is called, the shape of the history, the time zone, the locale, or files left over from earlier packages; nothing in the checkout but the package changes. It also holds when one of the tools fails or the disk is full; and stopped at any point, the script leaves no incomplete package under a package's name.",
  ["inputs", "configurations"], "all ELF programs (machines, word sizes, byte orders, symbol-version requirements, files that are no programs) x histories x umasks, time zones, locales, directories, leftovers",
  "No test runs the packaging script.",
  ["contrib/debianize.py"],
  [("architecture from the ELF header", "contrib/debianize.py: get_deb_architecture"), ("highest required versions", "contrib/debianize.py: get_lib_versions"), ("tar and ar invocations", "contrib/debianize.py: main")],
  ["the .deb file, standard output and exit status of contrib/debianize.py"]),
P("C28", "The program changes nothing but its own output",
  "Whatever the command line, the environment, the working directory, standard input and the contents of files that happen to be there, running the program has no effect besides what it writes to standard output and standard error and its exit status: it creates, changes and removes no files, contacts nobody over a network, starts no other process, sends no signals, changes no settings of the system or of a terminal, and takes nothing from standard input, which is left to others (so that it can be used in loops that read from there).",
  ["inputs", "configurations"], "all command lines x environments x file contents",
  "The tests call functions that return values; nobody watches what else they do.",
  ["src/main.rs", "src/console.rs", "src/cmds/*.rs", "src/net.rs", "src/addr.rs"],
  [("everything is computed from the arguments", "src/main.rs:do_main"), ("output through print!/eprint! only", "src/cmds/*.rs, src/console.rs")],
  ["system calls of the process (seccomp filter)"]),
P("C29", "Long command lines and large results are processed in moderate time",
  "Every mode copes with thousands of arguments, with very long arguments and with results of hundreds of thousands of lines, whatever their shape and order: a list of up to 2,500 networks of one family (5,000 unless they join one after the other; isolated, consecutive, paired, nested, repeated, lopsided, in any order) is reported or minimized, up to 5,000 host counts are split off, a single argument of up to 120,000 bytes is read or refused, and up to 2^18 addresses or 2^12 subnets are listed within a few seconds of processor time (8 s at most; the release build on a current machine needs about one) and less than a gigabyte of memory.",
  ["inputs"], "all lists of thousands of networks or host counts and all arguments of up to 120,000 bytes",
  "The longest list in the tests has ten networks; time that grows with the cube of the length goes unnoticed.",
  ["src/cmds/minimize.rs", "src/cmds/split.rs", "src/cmds/resize.rs", "src/cmds/enumerate.rs", "src/cmds/mod.rs", "src/addr.rs"],
  [("passes over pairs of networks", "src/cmds/minimize.rs:minimize_subnets"), ("sorting and lookup of slices", "src/cmds/split.rs:split_subnet"), ("parsing with regular expressions", "src/cmds/mod.rs:parse_netspec")],
  ["termination of the release build under RLIMIT_CPU and RLIMIT_AS"]),
P("C30", "The Arch Linux recipe names the commit and packages what was built",
  "The functions of contrib/PKGBUILD.archlinux, called as makepkg calls them, do what a package needs, whatever the history, the directories' names and the umask: pkgver gives r<number of commits>.<beginning of the commit's name, unambiguous>, a valid version that pacman takes for newer than that of any parent commit, and changes nothing; build and check let cargo make and test a release build in the checkout and fail when cargo fails; package fills the package directory with the program of the release build, executable for everyone, and the licence, readable for everyone, and with nothing else, or fails; it changes nothing outside that directory.",
  ["inputs", "configurations"], "all histories x programs x umasks x directory names x failures of cargo and of the tools",
  "No test runs the recipe.",
  ["contrib/PKGBUILD.archlinux"],
  [("version from the history", "contrib/PKGBUILD.archlinux: pkgver"), ("contents and modes", "contrib/PKGBUILD.archlinux: package")],
  ["output and status of the recipe's functions, the package directory"]),
P("C31", "Leaving out an optional feature takes away only what that feature provides",
  "The program can be built without either or both of its optional features (console, num-bigint). Such a build answers every command line as the full one does, with the same output, messages and exit status, except for what the missing feature provides: without num-bigint, splitting is refused (status 1, no output) and not mentioned in the usage text, and reports lack the row with the number of hosts and the class; without console, nothing is ever coloured.",
  ["inputs", "configurations"], "all command lines x the three sets of optional features that lack one",
  "The tests themselves need num-bigint and are only built with all features.",
  ["src/main.rs", "src/console.rs", "src/cmds/show_net.rs", "src/cmds/mod.rs", "src/net.rs", "Cargo.toml"],
  [("split guarded by num-bigint", "src/main.rs:do_main, src/cmds/mod.rs"), ("number of hosts guarded by num-bigint", "src/cmds/show_net.rs:output_network, src/net.rs:host_count"), ("colours guarded by console", "src/console.rs:write_in_color")],
  ["stdout, stderr and exit status of builds with --no-default-features"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props: f.write(json.dumps(p, ensure_ascii=False) + "\n")
