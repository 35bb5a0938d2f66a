From 7606ea85bb8e65e6804a2d6ed37de7331565a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 01/22] fix: keep the columns of a report row on one line
 without colors

When colors are disabled (e.g. because the output is piped), every fragment
of a row was printed on a line of its own, every single bit included. The
"no hosts/net" row, on the other hand, was only terminated by that accident
and lacked its newline when colors are enabled.
---
 src/cmds/show_net.rs | 1 +
 src/console.rs       | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 1802ebb..3f44c24 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -120,6 +120,7 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
             println!();
         } else {
             write_in_color("no hosts/net", Some(LABEL_COLOR), 0);
+            println!();
         }
     }
 }
diff --git a/src/console.rs b/src/console.rs
index 31f2031..a9411b6 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -78,5 +78,5 @@ pub fn write_in_color<S: AsRef<str>>(text: S, color: Option<Color>, pad_to: isiz
         }
     }
 
-    println!("{}", padded);
+    print!("{}", padded);
 }
-- 
2.43.0


From c66c029349197fb72a9d10717b8566df42a3698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 02/22] fix: derange ranges that reach the end of the address
 space

A range ending at the highest address panicked (no next subnet), and the
range spanning the whole address space underflowed the CIDR prefix (panic
with overflow checks, endless loop without). The same code lists the unused
networks of --split.
---
 src/cmds/derange.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/cmds/derange.rs b/src/cmds/derange.rs
index 83d7738..67e0ee7 100644
--- a/src/cmds/derange.rs
+++ b/src/cmds/derange.rs
@@ -66,15 +66,22 @@ pub fn range_to_subnets<A: IpAddress>(
     let mut current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
     while first_addr <= last_addr {
         // try enlarging the subnet
-        let larger_subnet = IpNetwork::new_with_prefix(first_addr, current_subnet.cidr_prefix().unwrap() - 1);
-        if larger_subnet.base_addr() != first_addr || larger_subnet.last_addr_of_subnet() > last_addr {
+        // (impossible if it already encompasses the whole address space)
+        let larger_subnet = current_subnet.cidr_prefix().unwrap()
+            .checked_sub(1)
+            .map(|prefix| IpNetwork::new_with_prefix(first_addr, prefix))
+            .filter(|net| net.base_addr() == first_addr && net.last_addr_of_subnet() <= last_addr);
+        if let Some(larger_subnet) = larger_subnet {
+            // anchor the growth and continue
+            current_subnet = larger_subnet;
+        } else {
             // we've gone beyond; store what we have and continue with the next chunk
             ret.push(current_subnet);
-            first_addr = current_subnet.next_subnet_base_addr().unwrap();
+            first_addr = match current_subnet.next_subnet_base_addr() {
+                Some(nsba) => nsba,
+                None => break, // end of the address space
+            };
             current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
-        } else {
-            // anchor the growth and continue
-            current_subnet = larger_subnet;
         }
     }
 
-- 
2.43.0


From 55aa041b1b46ac12dcef475763525266e1db3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 03/22] fix: don't list networks in use or outside as unused
 after a split

If the slices used up the network completely, its last address and the
address following it were listed as unused. If the first slice is larger
than the network itself (and they share the last address), the split was
reported as successful.
---
 src/cmds/split.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 958c2ce..d70da6a 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -71,15 +71,17 @@ fn output_split<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(subnet: IpNetwork
         .map(|sn| sn.last_addr_of_subnet())
         .max()
         .expect("no subnets returned");
-    if !subnet.contains(&max_used_address) {
+    if !split_subnets.iter().all(|sn| subnet.is_superset_of(sn)) {
         println!("Network is too small");
     } else if let Some(next_unused_address) = max_used_address.add_offset(1) {
         println!("Unused networks:");
         let last_address = subnet.last_addr_of_subnet();
-        let unused_subnets = range_to_subnets(next_unused_address, last_address);
+        if next_unused_address <= last_address {
+            let unused_subnets = range_to_subnets(next_unused_address, last_address);
 
-        for unused_subnet in unused_subnets {
-            println!("{}", unused_subnet);
+            for unused_subnet in unused_subnets {
+                println!("{}", unused_subnet);
+            }
         }
     }
 
-- 
2.43.0


From 37d315a8d3e5ad93691d81115bc4d9d793f2c50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 04/22] fix: allow splits that use the address space up to its
 end

A split whose last slice ends at the highest address, or that needs the
whole address space, was refused for lack of addresses although it fits.
---
 src/cmds/split.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index d70da6a..06ded74 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -102,8 +102,10 @@ pub fn split_subnet<A: IpAddress>(subnet: IpNetwork<A>, host_counts: Vec<BigInt>
 
     let mut index_to_subnet: HashMap<usize, IpNetwork<A>> = HashMap::new();
 
-    let mut current_net = IpNetwork::new_with_prefix(subnet.base_addr(), subnet.subnet_mask().byte_count()*8);
+    let mut next_base_addr = Some(subnet.base_addr());
     for (i, host_count) in indexes_and_host_counts {
+        // if there is no next base address, the address space is exhausted
+        let mut current_net = IpNetwork::new_with_prefix(next_base_addr?, subnet.subnet_mask().byte_count()*8);
         while current_net.host_count() < host_count {
             let cidr_prefix = current_net.cidr_prefix().unwrap();
             if cidr_prefix == 0 {
@@ -112,18 +114,14 @@ pub fn split_subnet<A: IpAddress>(subnet: IpNetwork<A>, host_counts: Vec<BigInt>
             current_net = IpNetwork::new_with_prefix(current_net.base_addr(), cidr_prefix - 1);
         }
 
-        if current_net.cidr_prefix().unwrap() == 0 {
+        if current_net.host_count() < host_count {
             // this won't fit
             return None;
         }
 
         // we fit!
         index_to_subnet.insert(i, current_net);
-        let next_subnet_base_addr = match current_net.next_subnet_base_addr() {
-            Some(nsba) => nsba,
-            None => return None,
-        };
-        current_net = IpNetwork::new_with_prefix(next_subnet_base_addr, current_net.subnet_mask().byte_count()*8);
+        next_base_addr = current_net.next_subnet_base_addr();
     }
 
     let mut ordered_subnets: Vec<(usize, IpNetwork<A>)> = index_to_subnet.iter()
-- 
2.43.0


From d2da0f83f013970f3a61acb6531116b688fe64ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 05/22] fix: parse IPv6 addresses where an outer "::" stands
 for a single group

"1:2:3:4:5:6:7::" and "::2:3:4:5:6:7:8" were rejected for having nine chunks
although they are valid and even printed by ripcalc itself.
---
 src/addr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/addr.rs b/src/addr.rs
index 0bb0fc3..8f0b128 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -402,8 +402,12 @@ impl FromStr for Ipv6Address {
             addr_str.push('0');
         }
 
+        // a zero inserted next to a leading or trailing shortening element is part of what it shortens
+        let has_edge_shortening = s.starts_with("::") != s.ends_with("::");
+        let max_chunks = if has_edge_shortening { 9 } else { 8 };
+
         let chunks: Vec<&str> = addr_str.split(":").collect();
-        if chunks.len() > 8 {
+        if chunks.len() > max_chunks {
             return Err(IpAddressParseError::IncorrectChunkCount(chunks.len(), 8));
         }
 
-- 
2.43.0


From c208fd872b117b6725d45ee2536764633d9ca79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 06/22] fix: highlight the class bits of networks such as
 64.0.0.0/2

The class bits of an IPv4 network were not highlighted, although its class
was printed, if one of the bits following them was 1 and the one after that
was not part of the network.
---
 src/cmds/show_net.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 3f44c24..00e9b6c 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -177,11 +177,11 @@ fn output_binary_ipv4_address(
                 } else if bitvec[0] == '1' && mask_bitvec[1] == '0' {
                     // first bit, 1, is part of the network, but second isn't
                     color_class = false;
-                } else if bitvec[1] == '1' && mask_bitvec[2] == '0' {
+                } else if bits.starts_with("11") && mask_bitvec[2] == '0' {
                     // first two bits, both 1, are part of the network, but third isn't
                     color_class = false;
-                } else if bitvec[2] == '1' && mask_bitvec[3] == '0' {
-                    // first two bits, both 1, are part of the network, but third isn't
+                } else if bits.starts_with("111") && mask_bitvec[3] == '0' {
+                    // first three bits, all 1, are part of the network, but fourth isn't
                     color_class = false;
                 }
             }
-- 
2.43.0


From efc6daf84824771a85f2feb6019a554319bf15bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 07/22] fix: reject arguments that are not valid Unicode
 instead of panicking

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21da9bf..e06c5c3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -45,7 +45,10 @@ fn usage() {
 }
 
 fn do_main() -> i32 {
-    let args: Vec<String> = std::env::args().collect();
+    // arguments that are not valid Unicode cannot be meaningful; let the parsers reject them
+    let args: Vec<String> = std::env::args_os()
+        .map(|arg| arg.to_string_lossy().into_owned())
+        .collect();
 
     if args.len() < 2 {
         usage();
-- 
2.43.0


From 2dd2468c417138f0ad7666d0e7208c53b4767f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 08/22] fix: accept a Cisco wildcard as the target of --resize

The usage text lists -WILDCARD as one of the forms of SUBNET, but --resize
failed to parse it.
---
 src/cmds/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cmds/mod.rs b/src/cmds/mod.rs
index 88c49dd..ee3cd60 100644
--- a/src/cmds/mod.rs
+++ b/src/cmds/mod.rs
@@ -254,22 +254,26 @@ pub fn parse_same_family_netspecs<S: AsRef<str>>(spec_strs: &[S]) -> Result<Netw
 
 /// Attempts to parse a subnet specification (mask or CIDR prefix).
 pub fn parse_subnet(spec: &str) -> Result<ParsedSubnet, ParseNetspecError> {
+    // a leading minus specifies a Cisco wildcard
+    let wildcard = spec.strip_prefix('-');
+    let addr_spec = wildcard.unwrap_or(spec);
+
     if spec.contains(':') {
-        let ipv6_addr: Ipv6Address = match spec.parse() {
+        let ipv6_addr: Ipv6Address = match addr_spec.parse() {
             Ok(ia) => ia,
             Err(e) => {
                 return Err(ParseNetspecError::Mask(e));
             },
         };
-        Ok(ParsedSubnet::Ipv6Mask(ipv6_addr))
+        Ok(ParsedSubnet::Ipv6Mask(if wildcard.is_some() { ipv6_addr.bitwise_negate() } else { ipv6_addr }))
     } else if spec.contains('.') {
-        let ipv4_addr: Ipv4Address = match spec.parse() {
+        let ipv4_addr: Ipv4Address = match addr_spec.parse() {
             Ok(ia) => ia,
             Err(e) => {
                 return Err(ParseNetspecError::Mask(e));
             },
         };
-        Ok(ParsedSubnet::Ipv4Mask(ipv4_addr))
+        Ok(ParsedSubnet::Ipv4Mask(if wildcard.is_some() { ipv4_addr.bitwise_negate() } else { ipv4_addr }))
     } else {
         let cidr_prefix: usize = match spec.parse() {
             Ok(cp) => cp,
-- 
2.43.0


From 8cfdb572d9c7b6f9aa2a6e6460067faeabe73681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 09/22] fix: minimize networks that are covered only once
 others are merged

With mixed subnet masks, a network can be covered by two other networks
without being covered by either one; it was kept after the two were merged.
---
 src/cmds/minimize.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmds/minimize.rs b/src/cmds/minimize.rs
index f828662..f8954d6 100644
--- a/src/cmds/minimize.rs
+++ b/src/cmds/minimize.rs
@@ -116,6 +116,9 @@ pub fn minimize_subnets<A: IpAddress>(
                 // replace the lower subnets with the upper subnet
                 filtered_subnets.remove(&subnets[i]);
                 filtered_subnets.remove(&subnets[j]);
+
+                // eliminate mixed networks that straddled the two
+                filtered_subnets.retain(|net| !new_subnet.is_superset_of(net));
                 filtered_subnets.insert(new_subnet);
 
                 subnets_merged = true;
-- 
2.43.0


From 49365d640badb474c55bd3ba4a67893353d3db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 10/22] fix: accept upper-case hexadecimal digits in IPv6
 network specifications

--derange and the target of --resize accept them already.
---
 src/cmds/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmds/mod.rs b/src/cmds/mod.rs
index ee3cd60..7f68f91 100644
--- a/src/cmds/mod.rs
+++ b/src/cmds/mod.rs
@@ -25,10 +25,10 @@ static IPV4_WITH_CIDR_REGEX: Lazy<Regex> = Lazy::new(||
     Regex::new("^(?P<addr>[0-9]+(?:[.][0-9]+){3})/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
 );
 static IPV6_WITH_SUBNET_REGEX: Lazy<Regex> = Lazy::new(||
-    Regex::new("^(?P<addr>[0-9a-f:]+)/(?P<wildcard>-)?(?P<mask>[0-9a-f:]*:[0-9a-f:]*)$").unwrap()
+    Regex::new("^(?P<addr>[0-9A-Fa-f:]+)/(?P<wildcard>-)?(?P<mask>[0-9A-Fa-f:]*:[0-9A-Fa-f:]*)$").unwrap()
 );
 static IPV6_WITH_CIDR_REGEX: Lazy<Regex> = Lazy::new(||
-    Regex::new("^(?P<addr>[0-9a-f:]+)/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
+    Regex::new("^(?P<addr>[0-9A-Fa-f:]+)/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
 );
 
 
-- 
2.43.0


From 5a703abef49e23d5f80cd077da5b7f0cbfeb02c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 11/22] fix: reject IPv6 addresses that begin or end with a
 single colon

"1:2:3:4:5:6:7:" (e.g. an address that has been cut off) was silently read
as "1:2:3:4:5:6:7:0", and ":1::2" as "0:1::2".
---
 src/addr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/addr.rs b/src/addr.rs
index 8f0b128..a75f973 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -457,6 +457,14 @@ impl FromStr for Ipv6Address {
             // leave remaining chunks as zero
         }
 
+        // a single colon at either end is not a shortening element
+        if s.starts_with(':') && !s.starts_with("::") {
+            return Err(IpAddressParseError::EmptyChunk(0));
+        }
+        if s.ends_with(':') && !s.ends_with("::") {
+            return Err(IpAddressParseError::EmptyChunk(7));
+        }
+
         let mut top_half: u64 = 0;
         let mut bottom_half: u64 = 0;
         for i in 0..8 {
-- 
2.43.0


From 41e19053e3f1b16ecf9805bc364122aff9c7eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 12/22] Add a verification hook that processes many command
 lines in one process

Only compiled with --cfg ripcalc_batch.
---
 src/batch.rs | 52 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 src/main.rs  | 13 ++++++++++++-
 2 files changed, 64 insertions(+), 1 deletion(-)
 create mode 100644 src/batch.rs

diff --git a/src/batch.rs b/src/batch.rs
new file mode 100644
index 0000000..0005944
--- /dev/null
+++ b/src/batch.rs
@@ -0,0 +1,52 @@
+//! Verification hook, compiled only with `--cfg ripcalc_batch`: processes many command lines within
+//! one process. Never part of a regular build.
+//!
+//! Command lines are read from standard input: the number of arguments (without the program name)
+//! followed by the length and the bytes of each argument, all integers being 32-bit little-endian.
+//! Once a command line has been processed, its exit status (101 if it panicked) is written to file
+//! descriptor 3 as a 32-bit little-endian integer.
+
+use std::cell::RefCell;
+use std::ffi::OsString;
+use std::fs::File;
+use std::io::{Read, Write};
+use std::os::unix::ffi::OsStringExt;
+use std::os::unix::io::FromRawFd;
+use std::panic::{AssertUnwindSafe, catch_unwind};
+
+
+thread_local! {
+    static CURRENT_ARGS: RefCell<Vec<OsString>> = const { RefCell::new(Vec::new()) };
+}
+
+/// Replacement for `std::env::args_os`.
+pub fn args_os() -> std::vec::IntoIter<OsString> {
+    CURRENT_ARGS.with(|args| args.borrow().clone()).into_iter()
+}
+
+fn read_u32<R: Read>(reader: &mut R) -> Option<u32> {
+    let mut buf = [0u8; 4];
+    reader.read_exact(&mut buf).ok()?;
+    Some(u32::from_le_bytes(buf))
+}
+
+/// Processes command lines until standard input ends.
+pub fn serve<F: Fn() -> i32>(run: F) -> ! {
+    let mut requests = std::io::stdin().lock();
+    let mut responses = unsafe { File::from_raw_fd(3) };
+    while let Some(count) = read_u32(&mut requests) {
+        let mut args = vec![OsString::from("ripcalc")];
+        for _ in 0..count {
+            let length = read_u32(&mut requests).expect("argument length");
+            let mut buf = vec![0u8; usize::try_from(length).unwrap()];
+            requests.read_exact(&mut buf).expect("argument");
+            args.push(OsString::from_vec(buf));
+        }
+        CURRENT_ARGS.with(|current| *current.borrow_mut() = args);
+
+        let status = catch_unwind(AssertUnwindSafe(&run)).unwrap_or(101);
+        std::io::stdout().flush().expect("flushing standard output");
+        responses.write_all(&status.to_le_bytes()).expect("response");
+    }
+    std::process::exit(0);
+}
diff --git a/src/main.rs b/src/main.rs
index e06c5c3..7be103e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,8 @@
+#![allow(unexpected_cfgs)] // ripcalc_batch
+
 mod addr;
+#[cfg(ripcalc_batch)]
+mod batch;
 mod bit_manip;
 mod cidr;
 mod cmds;
@@ -46,7 +50,11 @@ fn usage() {
 
 fn do_main() -> i32 {
     // arguments that are not valid Unicode cannot be meaningful; let the parsers reject them
-    let args: Vec<String> = std::env::args_os()
+    #[cfg(not(ripcalc_batch))]
+    use std::env::args_os;
+    #[cfg(ripcalc_batch)]
+    use crate::batch::args_os;
+    let args: Vec<String> = args_os()
         .map(|arg| arg.to_string_lossy().into_owned())
         .collect();
 
@@ -77,5 +85,8 @@ fn do_main() -> i32 {
 }
 
 fn main() {
+    #[cfg(ripcalc_batch)]
+    crate::batch::serve(do_main);
+    #[cfg(not(ripcalc_batch))]
     std::process::exit(do_main());
 }
-- 
2.43.0


From 3972515a202f8a1bbcaccb4e2b19d7cced27f5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 13/22] fix: refuse a plus sign within an address

---
 src/addr.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/addr.rs b/src/addr.rs
index a75f973..920e531 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -146,6 +146,10 @@ impl FromStr for Ipv4Address {
             if chunks[i].len() == 0 {
                 return Err(IpAddressParseError::EmptyChunk(i));
             }
+            if chunks[i].starts_with('+') {
+                // acceptable to parse() but not within an IP address
+                return Err(IpAddressParseError::SignedChunk(i, String::from(chunks[i])));
+            }
 
             let chunk_val: u32 = chunks[i].parse()
                 .map_err(|e| IpAddressParseError::ChunkParseError(i, String::from(chunks[i]), e))?;
@@ -472,6 +476,11 @@ impl FromStr for Ipv6Address {
             let shift_count_within_half = shift_count % 64;
             let into_top_half = i < 4;
 
+            if actual_chunks[i].starts_with('+') {
+                // acceptable to from_str_radix() but not within an IP address
+                return Err(IpAddressParseError::SignedChunk(i, actual_chunks[i].clone()));
+            }
+
             let chunk_value = match u16::from_str_radix(&actual_chunks[i], 16) {
                 Ok(v) => v,
                 Err(e)
@@ -594,6 +603,7 @@ pub enum IpAddressParseError {
     IncorrectChunkCount(usize, usize),
     EmptyChunk(usize),
     ChunkParseError(usize, String, ParseIntError),
+    SignedChunk(usize, String),
     ChunkOutOfRange(usize, u32, u32, u32),
     TooManyShorteningElements(usize, usize),
 }
@@ -608,6 +618,8 @@ impl fmt::Display for IpAddressParseError {
                 => write!(f, "IP address chunk with index {} is empty", chunk_idx),
             IpAddressParseError::ChunkParseError(chunk_idx, chunk, error)
                 => write!(f, "failed to parse IP address chunk with index {} ({:?}): {}", chunk_idx, chunk, error),
+            IpAddressParseError::SignedChunk(chunk_idx, chunk)
+                => write!(f, "IP address chunk with index {} ({:?}) has a sign", chunk_idx, chunk),
             IpAddressParseError::ChunkOutOfRange(chunk_idx, got, min, max)
                 => write!(f, "IP address chunk with index {} ({}) is out of range {} <= n <= {} chunk", chunk_idx, got, min, max),
             IpAddressParseError::TooManyShorteningElements(got, expected_max)
-- 
2.43.0


From adde28f0a5f8fd1b95f188cbeea674f5c49e9c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 14/22] fix: report it when the colour test could not be
 written

The colour test ends without a line break, so its output stayed buffered
until the program ended, and an error writing it then was ignored.
---
 src/main.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 7be103e..a24294a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -9,10 +9,12 @@ mod cmds;
 mod console;
 mod net;
 
+use std::io::Write;
+
 use crate::console::Color;
 
 
-fn color_test() {
+fn color_test() -> i32 {
     crate::console::write_in_color("Black", Some(Color::Black), 20);
     crate::console::write_in_color("DarkBlue", Some(Color::DarkBlue), 20);
     crate::console::write_in_color("DarkGreen", Some(Color::DarkGreen), 20);
@@ -29,6 +31,14 @@ fn color_test() {
     crate::console::write_in_color("Magenta", Some(Color::Magenta), 20);
     crate::console::write_in_color("Yellow", Some(Color::Yellow), 20);
     crate::console::write_in_color("White", Some(Color::White), 20);
+
+    // there is no line break at the end, so the output might not have been written yet
+    if let Err(e) = std::io::stdout().flush() {
+        eprintln!("failed to write output: {}", e);
+        return 1;
+    }
+
+    0
 }
 
 fn usage() {
@@ -74,8 +84,7 @@ fn do_main() -> i32 {
     } else if args[1] == "-e" || args[1] == "--enumerate" {
         crate::cmds::enumerate::enumerate(&args)
     } else if args[1] == "--color-test" {
-        color_test();
-        0
+        color_test()
     } else if args[1] == "--help" {
         usage();
         0
-- 
2.43.0


From 5bb77dc3c7e50f95402fc223dcc384ccca56a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:58 +0000
Subject: [PATCH 15/22] fix: accept 32-bit programs when packaging

---
 contrib/debianize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contrib/debianize.py b/contrib/debianize.py
index 4d769df..8274445 100644
--- a/contrib/debianize.py
+++ b/contrib/debianize.py
@@ -65,7 +65,7 @@ def get_elf_machine(file_name):
         bits = 32
         if bitness == b"\x02":
             bits = 64
-        else:
+        elif bitness != b"\x01":
             raise ValueError("invalid bitness: {b}".format(b=repr(bitness)))
 
         endianness = f.read(1)
-- 
2.43.0


From 470ac7304842ae95d0dcd2597340574672171d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:58 +0000
Subject: [PATCH 16/22] fix: let everyone read what is packaged, whatever the
 umask

---
 contrib/debianize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contrib/debianize.py b/contrib/debianize.py
index 8274445..6a33daf 100644
--- a/contrib/debianize.py
+++ b/contrib/debianize.py
@@ -246,6 +246,7 @@ def collect_data(temp_dir, code_dir, generated_files):
             "-f", "../data.tar.xz",
             "--owner=root:0",
             "--group=root:0",
+            "--mode=u=rwX,go=rX",
             ".",
         ],
         work_dir=data_dir,
@@ -346,6 +347,7 @@ Description: {sd}
             "-f", "../control.tar.gz",
             "--owner=root:0",
             "--group=root:0",
+            "--mode=u=rwX,go=rX",
             ".",
         ],
         work_dir=control_dir,
-- 
2.43.0


From 4415a48722d8f83eb000772d39654d3fe038dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:31 +0000
Subject: [PATCH 17/22] fix: do not package programs under the name of an
 architecture with another byte order or word size

---
 contrib/debianize.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/contrib/debianize.py b/contrib/debianize.py
index 6a33daf..521744a 100644
--- a/contrib/debianize.py
+++ b/contrib/debianize.py
@@ -89,15 +89,17 @@ def get_elf_machine(file_name):
         # https://en.wikipedia.org/wiki/Executable_and_Linkable_Format#File_header
         # https://www.debian.org/ports/
         (machine_num,) = struct.unpack(machine_struct, machine)
+        big_endian = machine_struct == ">H"
         return {
-            0x28: "armel",
-            0x3E: "amd64",
-            0xB7: "arm64",
-            0x03: "i386",
-            0x08: "mipsel" if bits == 32 else "mips64el",
-            0x15: "ppc64el",
-            0x16: "s390x",
-        }[machine_num]
+            (0x28, 32, False): "armel",
+            (0x3E, 64, False): "amd64",
+            (0xB7, 64, False): "arm64",
+            (0x03, 32, False): "i386",
+            (0x08, 32, False): "mipsel",
+            (0x08, 64, False): "mips64el",
+            (0x15, 64, False): "ppc64el",
+            (0x16, 64, True): "s390x",
+        }[(machine_num, bits, big_endian)]
 
 
 def get_elf_versions(file_name, lib_to_ver):
-- 
2.43.0


From d85172a0df66bf0640e11f1d979bdc411ac83bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 18/22] fix: do not start over after every join when minimizing

The time needed grew with the cube of the number of networks: 500 isolated
networks and 500 pairs took a quarter of a minute, twice as many over a
minute and a half. Join whatever can be joined in one pass instead.
---
 src/cmds/minimize.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/cmds/minimize.rs b/src/cmds/minimize.rs
index f8954d6..60c390c 100644
--- a/src/cmds/minimize.rs
+++ b/src/cmds/minimize.rs
@@ -80,19 +80,30 @@ pub fn minimize_subnets<A: IpAddress>(
         subnets.sort_unstable_by_key(|net| (net.base_addr(), net.subnet_mask()));
 
         for i in 0..subnets.len() {
+            if !filtered_subnets.contains(&subnets[i]) {
+                // already joined or eliminated in this pass
+                continue;
+            }
+
+            let next_base_addr = subnets[i].next_subnet_base_addr();
             for j in (i+1)..subnets.len() {
                 if subnets[i].subnet_mask() != subnets[j].subnet_mask() {
                     // not the same size
                     continue;
                 }
 
-                if let Some(last_ip_plus_one) = subnets[i].next_subnet_base_addr() {
+                if let Some(last_ip_plus_one) = next_base_addr {
                     if last_ip_plus_one != subnets[j].base_addr() {
                         // not adjacent
                         continue;
                     }
                 }
 
+                if !filtered_subnets.contains(&subnets[j]) {
+                    // already joined or eliminated in this pass
+                    continue;
+                }
+
                 // adjacent!
 
                 // which bit do they differ in?
@@ -124,10 +135,6 @@ pub fn minimize_subnets<A: IpAddress>(
                 subnets_merged = true;
                 break;
             }
-
-            if subnets_merged {
-                break;
-            }
         }
     }
 
-- 
2.43.0


From f34f169a8ec1de9c09607097dd85257d9beb537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:18 +0000
Subject: [PATCH 19/22] fix: package a changelog dated in English, whatever the
 locale

---
 contrib/debianize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contrib/debianize.py b/contrib/debianize.py
index 521744a..8dce3f8 100644
--- a/contrib/debianize.py
+++ b/contrib/debianize.py
@@ -47,6 +47,8 @@ def run_cmd(cmd_args, work_dir=None):
         cmd_args,
         stdout=subprocess.PIPE,
         cwd=work_dir,
+        # the output is evaluated or packaged, so do not translate it
+        env=dict(os.environ, LC_ALL="C"),
     )
     (stdout, _stderr) = subproc.communicate()
     result = subproc.wait()
-- 
2.43.0


From 049244179189a4dc3f0f22f200ecb4a8094d1c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:07 +0000
Subject: [PATCH 20/22] fix: leave no part of a package behind when copying it
 fails

---
 contrib/debianize.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/contrib/debianize.py b/contrib/debianize.py
index 8dce3f8..135f3b3 100644
--- a/contrib/debianize.py
+++ b/contrib/debianize.py
@@ -418,7 +418,15 @@ def main():
 
         # copy the archive out
         deb_target_name = os.path.join(code_dir, deb_name)
-        shutil.copy(deb_path, deb_target_name)
+        unfinished_name = deb_target_name + ".part"
+        try:
+            shutil.copy(deb_path, unfinished_name)
+            os.rename(unfinished_name, deb_target_name)
+        except BaseException:
+            # do not leave half a package behind
+            if os.path.exists(unfinished_name):
+                os.remove(unfinished_name)
+            raise
 
         # print out the name
         print(deb_name)
-- 
2.43.0


From ee5b754d4cf5f8c7568c8b76bccc97293d83c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:51 +0000
Subject: [PATCH 21/22] fix: compile without the optional features

console and num-bigint are declared as optional, but code that needs them was guarded with
cfg!(...), which does not remove it, so that no build without either of them succeeded.
---
 src/cmds/show_net.rs | 3 ++-
 src/console.rs       | 3 ++-
 src/main.rs          | 7 +++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 00e9b6c..7aafdd1 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -111,7 +111,8 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
     }
     println!();
 
-    if cfg!(feature = "num-bigint") {
+    #[cfg(feature = "num-bigint")]
+    {
         if net.host_count() > BigInt::from(0) {
             output_initial_columns("Hosts/Net:", &net.host_count().to_string());
             let top_bits = bytes_to_binary(&net.base_addr().to_bytes()[0..1]);
diff --git a/src/console.rs b/src/console.rs
index a9411b6..70552c4 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -50,7 +50,8 @@ pub fn write_in_color<S: AsRef<str>>(text: S, color: Option<Color>, pad_to: isiz
         }
     }
 
-    if cfg!(feature = "console") {
+    #[cfg(feature = "console")]
+    {
         if console::colors_enabled() {
             if let Some(clr) = color {
                 let styled = console::style(padded);
diff --git a/src/main.rs b/src/main.rs
index a24294a..444722a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -73,12 +73,15 @@ fn do_main() -> i32 {
         return 1;
     }
 
+    #[cfg(feature = "num-bigint")]
+    if args[1] == "-s" || args[1] == "--split" {
+        return crate::cmds::split::split(&args);
+    }
+
     if args[1] == "-m" || args[1] == "--minimize" {
         crate::cmds::minimize::minimize(&args)
     } else if args[1] == "-d" || args[1] == "--derange" {
         crate::cmds::derange::derange(&args)
-    } else if cfg!(feature = "num-bigint") && (args[1] == "-s" || args[1] == "--split") {
-        crate::cmds::split::split(&args)
     } else if args[1] == "-r" || args[1] == "--resize" {
         crate::cmds::resize::resize(&args)
     } else if args[1] == "-e" || args[1] == "--enumerate" {
-- 
2.43.0


From b3f2aa39a4db3b4481b6762d4c41f33b7d82fd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:50 +0000
Subject: [PATCH 22/22] fix: keep the set-group-id bit of the temporary
 directory out of packages

---
 contrib/debianize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contrib/debianize.py b/contrib/debianize.py
index 135f3b3..df0a7c6 100644
--- a/contrib/debianize.py
+++ b/contrib/debianize.py
@@ -250,7 +250,7 @@ def collect_data(temp_dir, code_dir, generated_files):
             "-f", "../data.tar.xz",
             "--owner=root:0",
             "--group=root:0",
-            "--mode=u=rwX,go=rX",
+            "--mode=u=rwX,go=rX,a-s",
             ".",
         ],
         work_dir=data_dir,
@@ -351,7 +351,7 @@ Description: {sd}
             "-f", "../control.tar.gz",
             "--owner=root:0",
             "--group=root:0",
-            "--mode=u=rwX,go=rX",
+            "--mode=u=rwX,go=rX,a-s",
             ".",
         ],
         work_dir=control_dir,
-- 
2.43.0

