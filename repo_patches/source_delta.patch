From 59f1566588b59fa7fba17322e932cf271c5c1ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:40 +0000
Subject: [PATCH 01/16] fix: timers: treat a zero-initialised instance as
 stopped

ST allocates function block instances zero initialised, but the all-zero
bit pattern of the Option<Instant> start time is a running timer: a fresh
TON was on immediately, a fresh TP never pulsed.
---
 src/timers.rs | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 1661c8d..b6d68c1 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -1,3 +1,4 @@
+use std::mem::MaybeUninit;
 use std::time::Duration;
 #[cfg(not(feature = "mock_time"))]
 use std::time::Instant;
@@ -13,14 +14,32 @@ pub mod test_time_helpers;
 pub type Time = i64;
 
 #[repr(C)]
-#[derive(Debug, Default)]
+#[derive(Debug)]
 pub struct TimerParams {
     input: bool,
     preset_time: Time,
     output: bool,
     elapsed_time: Time,
     input_edge: Signal,
-    start_time: Option<Instant>,
+    // ST allocates timers zero initialised, a separate flag makes that a stopped timer.
+    // (The all-zero bit pattern of an `Option<Instant>` is a started one.)
+    is_running: bool,
+    // Only initialised if `is_running` is set
+    start_time: MaybeUninit<Instant>,
+}
+
+impl Default for TimerParams {
+    fn default() -> Self {
+        TimerParams {
+            input: false,
+            preset_time: 0,
+            output: false,
+            elapsed_time: 0,
+            input_edge: Signal::default(),
+            is_running: false,
+            start_time: MaybeUninit::uninit(),
+        }
+    }
 }
 
 impl TimerParams {
@@ -28,16 +47,17 @@ impl TimerParams {
     /// It does not take into consideration the preset/range for the timer
     /// Only if a start time has been set.
     fn is_running(&self) -> bool {
-        self.start_time.is_some()
+        self.is_running
     }
 
     fn start(&mut self) {
-        self.start_time = Some(Instant::now());
+        self.start_time = MaybeUninit::new(Instant::now());
+        self.is_running = true;
         self.set_elapsed_time(0);
     }
 
     fn reset(&mut self) {
-        self.start_time = None;
+        self.is_running = false;
         self.set_elapsed_time(0);
     }
 
@@ -63,7 +83,12 @@ impl TimerParams {
     }
 
     fn get_run_time(&self) -> Option<Duration> {
-        self.start_time.map(|it| it.elapsed())
+        if self.is_running() {
+            // SAFETY: a running timer has been started, which sets the start time
+            Some(unsafe { self.start_time.assume_init() }.elapsed())
+        } else {
+            None
+        }
     }
 
     fn set_output(&mut self, value: bool) {
-- 
2.43.0


From 52aaa9cec1a9b51341b0655859fe57631422d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:12 +0000
Subject: [PATCH 02/16] fix: timers: TP with IN FALSE while idle, and IN
 falling during the pulse

Calling an idle TP with IN FALSE hit unreachable!(), and when IN fell while
the pulse was still active the falling edge was consumed, so the timer was
never reset and could not be triggered again.
---
 src/timers.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index b6d68c1..1dc1718 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -108,22 +108,19 @@ impl TimerParams {
 #[no_mangle]
 pub extern "C" fn TP(timer: &mut TimerParams) {
     //If timer is active (start time set)
-    let output = if timer.is_running() {
-        timer.update_elapsed_time();
-        // If time elapsed within range
-        if timer.is_in_preset_range() {
-            true
-        } else {
-            if timer.input_falling_edge() {
-                timer.reset()
-            }
-            false
-        }
+    timer.update_elapsed_time();
+    // If time elapsed within range, the pulse is on regardless of the input
+    let output = if timer.is_in_preset_range() {
+        true
     } else if timer.input_rising_edge() {
         timer.start();
         true
     } else {
-        unreachable!("We should not get here, if we do write the failing test for it.")
+        //No pulse, keep the elapsed time until the input is false
+        if !timer.input {
+            timer.reset();
+        }
+        false
     };
     timer.set_output(output);
     timer.input_edge.set(timer.input);
-- 
2.43.0


From 62549377bcc206c7b3a33597e42a47c0b795b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 03/16] fix: SHL/SHR: shifting by the width or more gives 0

It panicked in debug builds and shifted by the count modulo the width in
release builds, IEC 61131-3 fills with zeros.
---
 src/bit_shift_functions.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bit_shift_functions.rs b/src/bit_shift_functions.rs
index 48510fc..e34bd39 100644
--- a/src/bit_shift_functions.rs
+++ b/src/bit_shift_functions.rs
@@ -4,56 +4,56 @@
 #[no_mangle]
 /// Shift left operation on bytes
 pub fn SHL__BYTE(input: u8, n: u32) -> u8 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on word
 pub fn SHL__WORD(input: u16, n: u32) -> u16 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on dword
 pub fn SHL__DWORD(input: u32, n: u32) -> u32 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on lword
 pub fn SHL__LWORD(input: u64, n: u32) -> u64 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on bytes
 pub fn SHR__BYTE(input: u8, n: u32) -> u8 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on word
 pub fn SHR__WORD(input: u16, n: u32) -> u16 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on dword
 pub fn SHR__DWORD(input: u32, n: u32) -> u32 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on lword
 pub fn SHR__LWORD(input: u64, n: u32) -> u64 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
-- 
2.43.0


From 6ed30dbeceb9054a8029de1a5d4513f3dfcdd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:38 +0000
Subject: [PATCH 04/16] fix: DELETE/REPLACE: reject a negative character count

In a build without overflow checks the negative count wrapped and the
call returned a string longer than its source.
---
 src/string_functions.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/string_functions.rs b/src/string_functions.rs
index dfbb925..70322ed 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -507,6 +507,9 @@ pub unsafe extern "C" fn DELETE_EXT__STRING(
     pos: i32,
     dest: *mut u8,
 ) -> i32 {
+    if num_chars_to_delete < 0 {
+        panic!("Length parameter cannot be negative.");
+    }
     let mut dest = dest;
     let nchars = EncodedCharsIter::decode(src).count();
     if pos < 1 || pos > nchars as i32 {
@@ -550,6 +553,9 @@ pub unsafe extern "C" fn DELETE_EXT__WSTRING(
     pos: i32,
     dest: *mut u16,
 ) -> i32 {
+    if num_chars_to_delete < 0 {
+        panic!("Length parameter cannot be negative.");
+    }
     let mut dest = dest;
     let nchars = EncodedCharsIter::decode(src).count();
     if pos < 1 || pos > nchars as i32 {
@@ -595,6 +601,9 @@ pub unsafe extern "C" fn REPLACE_EXT__STRING(
     pos: i32,
     dest: *mut u8,
 ) -> i32 {
+    if num_chars_to_replace < 0 {
+        panic!("Length parameter cannot be negative.");
+    }
     let mut dest = dest;
     let nbase = EncodedCharsIter::decode(src_base).count();
     if pos < 1 || pos > nbase as i32 {
@@ -643,6 +652,9 @@ pub unsafe extern "C" fn REPLACE_EXT__WSTRING(
     pos: i32,
     dest: *mut u16,
 ) -> i32 {
+    if num_chars_to_replace < 0 {
+        panic!("Length parameter cannot be negative.");
+    }
     let mut dest = dest;
     let nbase = EncodedCharsIter::decode(src_base).count();
     if pos < 1 || pos > nbase as i32 {
-- 
2.43.0


From 89a990245a93fb02f50ab43843a82011dc885026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:11 +0000
Subject: [PATCH 05/16] fix: STRING_TO_WSTRING: terminate the result

The rest of a longer text already in the destination stayed visible.
---
 src/string_conversion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/string_conversion.rs b/src/string_conversion.rs
index 2b18a2e..3a002fd 100644
--- a/src/string_conversion.rs
+++ b/src/string_conversion.rs
@@ -39,6 +39,7 @@ pub unsafe extern "C" fn STRING_TO_WSTRING_EXT(src: *const u8, dest: *mut u16) -
             dest = dest.add(1);
         }
     }
+    *dest = 0;
 
     0
 }
-- 
2.43.0


From af8d4916dd7ef214a7a118d9a24ef4f18f3fb17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 06/16] fix: x_TO_STRING: terminate the text in the destination

The conversions wrote no nul-terminator, so what the destination held
before stayed visible behind the result, and TIME_TO_STRING, which looks
for the first nul, misplaced the components or wrote past the buffer.
---
 src/extra_functions.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index 441fe5c..4785667 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -24,7 +24,7 @@ const DEFAULT_STRING_LEN: usize = 81;
 pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -36,7 +36,7 @@ pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -47,7 +47,7 @@ pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
 #[no_mangle]
 pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -60,9 +60,9 @@ pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
     if input.floor() < 1e14 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -78,9 +78,9 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
 
     // TODO: discuss when scientific notation should be displayed
     if input.floor() < 1e6 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -173,10 +173,11 @@ pub extern "C" fn TIME() -> i64 {
 #[no_mangle]
 pub unsafe extern "C" fn TIME_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let mut dest = dest;
+    *dest = 0;
     let literals = parse_timestamp(input);
     literals.iter().filter(|&it| it.0 != 0).for_each(|it| {
         let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-        write!(&mut *buf, "{}{}", it.0, it.1).unwrap();
+        write!(&mut *buf, "{}{}\0", it.0, it.1).unwrap();
         let idx = buf.iter().position(|&c| c == 0).unwrap();
         dest = dest.add(idx);
     });
@@ -218,7 +219,7 @@ pub unsafe extern "C" fn DT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}-{time}").unwrap();
+    write!(&mut *buf, "{date}-{time}\0").unwrap();
 
     0
 }
@@ -232,7 +233,7 @@ pub unsafe extern "C" fn DATE_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let date = datetime.to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}").unwrap();
+    write!(&mut *buf, "{date}\0").unwrap();
 
     0
 }
@@ -246,7 +247,7 @@ pub unsafe extern "C" fn TOD_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{time}").unwrap();
+    write!(&mut *buf, "{time}\0").unwrap();
 
     0
 }
-- 
2.43.0


From ce5a2da5087729154e495da2864ae6f500fb1c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 07/16] fix: LREAL_TO_STRING: scientific notation for large
 negative values

They were written out in full and overflowed the buffer (panic) from
about -1e72 on, positive values of the same magnitude did not.
---
 src/extra_functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index 4785667..49f14b4 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -59,7 +59,7 @@ pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
-    if input.floor() < 1e14 {
+    if input.abs().floor() < 1e14 {
         write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
         write!(&mut *buf, "{input:.6e}\0").unwrap()
@@ -77,7 +77,7 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     // float: 23 bits are used for the mantissa (about 7 decimal digits)
 
     // TODO: discuss when scientific notation should be displayed
-    if input.floor() < 1e6 {
+    if input.abs().floor() < 1e6 {
         write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
         write!(&mut *buf, "{input:.6e}\0").unwrap()
-- 
2.43.0


From 9035d7c26d3f84f77be4bebda88c7de4cdb27991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:09 +0000
Subject: [PATCH 08/16] fix: TIME_TO_STRING: negative TIME

The days wrapped to 4294967295d and the other components were those of
the time before midnight; write the magnitude after a minus sign.
---
 src/extra_functions.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index 49f14b4..d78ff90 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -173,8 +173,12 @@ pub extern "C" fn TIME() -> i64 {
 #[no_mangle]
 pub unsafe extern "C" fn TIME_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let mut dest = dest;
+    if input < 0 {
+        *dest = b'-';
+        dest = dest.add(1);
+    }
     *dest = 0;
-    let literals = parse_timestamp(input);
+    let literals = parse_timestamp(input.unsigned_abs());
     literals.iter().filter(|&it| it.0 != 0).for_each(|it| {
         let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
         write!(&mut *buf, "{}{}\0", it.0, it.1).unwrap();
@@ -185,8 +189,14 @@ pub unsafe extern "C" fn TIME_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     0
 }
 
-fn parse_timestamp<'a>(timestamp_nanos: i64) -> [(u32, &'a str); 7] {
-    let datetime = chrono::Utc.timestamp_nanos(timestamp_nanos);
+fn parse_timestamp<'a>(timestamp_nanos: u64) -> [(u32, &'a str); 7] {
+    let nanos_per_sec = 1e9 as u64;
+    let datetime = chrono::Utc
+        .timestamp_opt(
+            (timestamp_nanos / nanos_per_sec) as i64,
+            (timestamp_nanos % nanos_per_sec) as u32,
+        )
+        .unwrap();
     let (nanos, micros, millis, seconds, minutes, hours) = (
         datetime.timestamp_subsec_nanos() % 1000,
         datetime.timestamp_subsec_micros() % 1000,
@@ -195,7 +205,7 @@ fn parse_timestamp<'a>(timestamp_nanos: i64) -> [(u32, &'a str); 7] {
         datetime.minute(),
         datetime.hour(),
     );
-    let nanos_per_day = 1e9 as i64 * 3600 * 24;
+    let nanos_per_day = nanos_per_sec * 3600 * 24;
     let days = (timestamp_nanos / nanos_per_day) as u32;
 
     [
-- 
2.43.0


From 290527625b2e65f1f6029effc9f9ef990a90d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 09/16] fix: MUL/DIV TIME by ULINT: operands above the LINT
 range

TIME / ULINT panicked although the quotient (0 or -1) is representable,
and so did T#0s * ULINT.
---
 src/date_time_numeric_functions.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/date_time_numeric_functions.rs b/src/date_time_numeric_functions.rs
index 2d0e8c2..e1e28ad 100644
--- a/src/date_time_numeric_functions.rs
+++ b/src/date_time_numeric_functions.rs
@@ -375,9 +375,9 @@ pub extern "C" fn MUL_LTIME__ULINT(in1: i64, in2: u64) -> i64 {
 /// Panic on overflow
 ///
 fn checked_mul_time_with_unsigned_int(in1: i64, in2: u64) -> i64 {
-    // convert in2 [u64] to [i64]
-    // if in2 is to large for [i64] the multiplication will allways overflow -> panic on try_into()
-    in1.checked_mul(in2.try_into().unwrap()).unwrap()
+    // in2 may exceed [i64] while the product does not (in1 = 0, or -1 * 2^63)
+    // if the product is to large for [i64] -> panic on try_into()
+    (i128::from(in1) * i128::from(in2)).try_into().unwrap()
 }
 
 /// .
@@ -633,9 +633,12 @@ pub extern "C" fn DIV_LTIME__ULINT(in1: i64, in2: u64) -> i64 {
 /// Panic on overflow or division by zero
 ///
 fn checked_div_time_by_unsigned_int(in1: i64, in2: u64) -> i64 {
-    // convert in2 [u64] to [i64]
-    // if in2 is to large for [i64] the division will allways fail -> panic on try_into()
-    in1.checked_div(in2.try_into().unwrap()).unwrap()
+    // in2 may exceed [i64], the quotient does not
+    i128::from(in1)
+        .checked_div(in2.into())
+        .unwrap()
+        .try_into()
+        .unwrap()
 }
 
 /// .
-- 
2.43.0


From f69a6696f811b0e1f4b0798210263b4289b7c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:19 +0000
Subject: [PATCH 10/16] fix: CONCAT_DATE/CONCAT_TOD: components beyond 32 bits

UDINT, LINT and ULINT components were truncated, so 4294967297 was taken
for 1; panic like for any other invalid component.
---
 src/date_time_extra_functions.rs | 35 +++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/date_time_extra_functions.rs b/src/date_time_extra_functions.rs
index 2fe83b9..1a619b9 100644
--- a/src/date_time_extra_functions.rs
+++ b/src/date_time_extra_functions.rs
@@ -51,7 +51,7 @@ pub extern "C" fn CONCAT_DATE__DINT(in1: i32, in2: i32, in3: i32) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__UDINT(in1: u32, in2: u32, in3: u32) -> i64 {
-    concat_date(in1 as i32, in2, in3)
+    concat_date(checked_component(in1), in2, in3)
 }
 
 /// .
@@ -60,7 +60,11 @@ pub extern "C" fn CONCAT_DATE__UDINT(in1: u32, in2: u32, in3: u32) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__LINT(in1: i64, in2: i64, in3: i64) -> i64 {
-    concat_date(in1 as i32, in2 as u32, in3 as u32)
+    concat_date(
+        checked_component(in1),
+        checked_component(in2),
+        checked_component(in3),
+    )
 }
 
 /// .
@@ -69,7 +73,18 @@ pub extern "C" fn CONCAT_DATE__LINT(in1: i64, in2: i64, in3: i64) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__ULINT(in1: u64, in2: u64, in3: u64) -> i64 {
-    concat_date(in1 as i32, in2 as u32, in3 as u32)
+    concat_date(
+        checked_component(in1),
+        checked_component(in2),
+        checked_component(in3),
+    )
+}
+
+/// Converts a date or time component, panics if it does not fit
+fn checked_component<T, U: TryFrom<T>>(component: T) -> U {
+    U::try_from(component)
+        .ok()
+        .expect("Invalid parameters, component out of range")
 }
 
 /// .
@@ -144,7 +159,12 @@ pub extern "C" fn CONCAT_TOD__UDINT(in1: u32, in2: u32, in3: u32, in4: u32) -> i
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_TOD__LINT(in1: i64, in2: i64, in3: i64, in4: i64) -> i64 {
-    concat_tod(in1 as u32, in2 as u32, in3 as u32, in4 as u32)
+    concat_tod(
+        checked_component(in1),
+        checked_component(in2),
+        checked_component(in3),
+        checked_component(in4),
+    )
 }
 
 /// .
@@ -153,7 +173,12 @@ pub extern "C" fn CONCAT_TOD__LINT(in1: i64, in2: i64, in3: i64, in4: i64) -> i6
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_TOD__ULINT(in1: u64, in2: u64, in3: u64, in4: u64) -> i64 {
-    concat_tod(in1 as u32, in2 as u32, in3 as u32, in4 as u32)
+    concat_tod(
+        checked_component(in1),
+        checked_component(in2),
+        checked_component(in3),
+        checked_component(in4),
+    )
 }
 
 /// .
-- 
2.43.0


From d226f85f4eb89713572a489f6a8c7fd45410830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 11/16] fix: CONCAT_TOD: reject 1000 and more milliseconds in
 second 59

chrono represents a leap second that way, the result was the next
minute.
---
 src/date_time_extra_functions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/date_time_extra_functions.rs b/src/date_time_extra_functions.rs
index 1a619b9..418085c 100644
--- a/src/date_time_extra_functions.rs
+++ b/src/date_time_extra_functions.rs
@@ -188,6 +188,8 @@ pub extern "C" fn CONCAT_TOD__ULINT(in1: u64, in2: u64, in3: u64, in4: u64) -> i
 #[no_mangle]
 pub extern "C" fn concat_tod(in1: u32, in2: u32, in3: u32, in4: u32) -> i64 {
     let dt = NaiveDate::from_ymd_opt(1970, 1, 1)
+        // chrono takes 1000..1999 ms in second 59 for a leap second
+        .filter(|_| in4 < 1000)
         .and_then(|date| date.and_hms_milli_opt(in1, in2, in3, in4))
         .expect("Invalid parameters, cannot create TOD");
     dt.timestamp_nanos()
-- 
2.43.0


From 5f1abc26d17b5bd568d94c20e7fee17f78f10a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:24 +0000
Subject: [PATCH 12/16] fix: SPLIT_LDT overloads are implemented in Structured
 Text, not external

The six SPLIT_LDT__* functions were marked {external} although they have a
body and the library exports no such symbols, so that every use of SPLIT_LDT
failed to resolve.
---
 iec61131-st/date_time_extra_functions.st | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/iec61131-st/date_time_extra_functions.st b/iec61131-st/date_time_extra_functions.st
index bc28622..da876c3 100644
--- a/iec61131-st/date_time_extra_functions.st
+++ b/iec61131-st/date_time_extra_functions.st
@@ -796,7 +796,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for INT *)
-{external}
 FUNCTION SPLIT_LDT__INT : INT
 VAR_INPUT
 	in : LDT;
@@ -814,7 +813,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for UINT *)
-{external}
 FUNCTION SPLIT_LDT__UINT : INT
 VAR_INPUT
 	in : LDT;
@@ -832,7 +830,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for DINT *)
-{external}
 FUNCTION SPLIT_LDT__DINT : INT
 VAR_INPUT
 	in : LDT;
@@ -850,7 +847,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for UDINT *)
-{external}
 FUNCTION SPLIT_LDT__UDINT : INT
 VAR_INPUT
 	in : LDT;
@@ -868,7 +864,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for LINT *)
-{external}
 FUNCTION SPLIT_LDT__LINT : INT
 VAR_INPUT
 	in : LDT;
@@ -886,7 +881,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for ULINT *)
-{external}
 FUNCTION SPLIT_LDT__ULINT : INT
 VAR_INPUT
 	in : LDT;
-- 
2.43.0


From 1b184443f4b3a399d1a0d02c40370cffe09fe7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:10 +0000
Subject: [PATCH 13/16] fix: CHAR_TO_STRING/WCHAR_TO_WSTRING read past the
 character

---
 iec61131-st/string_conversion.st | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/iec61131-st/string_conversion.st b/iec61131-st/string_conversion.st
index 31b1919..d744dff 100644
--- a/iec61131-st/string_conversion.st
+++ b/iec61131-st/string_conversion.st
@@ -85,10 +85,12 @@ VAR_INPUT
 	in : WCHAR;
 END_VAR
 VAR
-	ptr : REF_TO WSTRING;
+	str : WSTRING;
+	ptr : REF_TO WCHAR;
 END_VAR
-	ptr := &in;
-	WCHAR_TO_WSTRING := ptr^;
+	ptr := &str;
+	ptr^ := in;
+	WCHAR_TO_WSTRING := str;
 END_FUNCTION
 
 (********************
@@ -113,10 +115,12 @@ VAR_INPUT
 	in : CHAR;
 END_VAR
 VAR
-	ptr : REF_TO STRING;
+	str : STRING;
+	ptr : REF_TO CHAR;
 END_VAR
-	ptr := &in;
-	CHAR_TO_STRING := ptr^;
+	ptr := &str;
+	ptr^ := in;
+	CHAR_TO_STRING := str;
 END_FUNCTION
 
 (********************
-- 
2.43.0


From 6ffd65d3e0ab82d7b8193ada403fdd54507d2f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:10 +0000
Subject: [PATCH 14/16] fix: WSTRING_TO_DINT truncated values beyond DINT

---
 iec61131-st/extra_functions.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iec61131-st/extra_functions.st b/iec61131-st/extra_functions.st
index d87365d..ea27a93 100644
--- a/iec61131-st/extra_functions.st
+++ b/iec61131-st/extra_functions.st
@@ -679,7 +679,7 @@ VAR_TEMP
     STR : STRING;
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
-    WSTRING_TO_DINT := STRING_TO_LINT(STR);
+    WSTRING_TO_DINT := STRING_TO_DINT(STR);
 END_FUNCTION
 
 (******************************************************************************
-- 
2.43.0


From 3daac26510e7749fe510a54df0a7d77e36569f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:13 +0000
Subject: [PATCH 15/16] fix: WSTRING_TO_LINT/DINT/LREAL/REAL overran their
 temporary text for non-ASCII input

---
 iec61131-st/extra_functions.st | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/iec61131-st/extra_functions.st b/iec61131-st/extra_functions.st
index ea27a93..8cf55f7 100644
--- a/iec61131-st/extra_functions.st
+++ b/iec61131-st/extra_functions.st
@@ -496,7 +496,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_LINT := STRING_TO_LINT(STR);
@@ -676,7 +676,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_DINT := STRING_TO_DINT(STR);
@@ -716,7 +716,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_LREAL := STRING_TO_LREAL(STR);
@@ -732,7 +732,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_REAL := STRING_TO_REAL(STR);
-- 
2.43.0


From 1c50cc3a9c73bd509bc64eebc979b5fd5150f8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:45 +0000
Subject: [PATCH 16/16] fix: EXPT truncated UDINT, LINT and ULINT exponents to
 DINT

---
 iec61131-st/arithmetic_functions.st | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/iec61131-st/arithmetic_functions.st b/iec61131-st/arithmetic_functions.st
index 2df8690..4b4b0d7 100644
--- a/iec61131-st/arithmetic_functions.st
+++ b/iec61131-st/arithmetic_functions.st
@@ -188,7 +188,7 @@ VAR_INPUT
 	in1 : REAL;
 	in2 : UDINT;
 END_VAR
-    EXPT__REAL__UDINT := EXPT__REAL__DINT(in1, in2);
+    EXPT__REAL__UDINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__REAL__ULINT : REAL
@@ -196,7 +196,7 @@ VAR_INPUT
 	in1 : REAL;
 	in2 : ULINT;
 END_VAR
-    EXPT__REAL__ULINT := EXPT__REAL__DINT(in1, in2);
+    EXPT__REAL__ULINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__REAL__SINT : REAL
@@ -220,7 +220,7 @@ VAR_INPUT
 	in1 : REAL;
 	in2 : LINT;
 END_VAR
-    EXPT__REAL__LINT := EXPT__REAL__DINT(in1, in2);
+    EXPT__REAL__LINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__LREAL__USINT : LREAL
@@ -244,7 +244,7 @@ VAR_INPUT
 	in1 : LREAL;
 	in2 : UDINT;
 END_VAR
-    EXPT__LREAL__UDINT := EXPT__LREAL__DINT(in1, in2);
+    EXPT__LREAL__UDINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__LREAL__ULINT : LREAL
@@ -252,7 +252,7 @@ VAR_INPUT
 	in1 : LREAL;
 	in2 : ULINT;
 END_VAR
-    EXPT__LREAL__ULINT := EXPT__LREAL__DINT(in1, in2);
+    EXPT__LREAL__ULINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__LREAL__SINT : LREAL
@@ -276,5 +276,5 @@ VAR_INPUT
 	in1 : LREAL;
 	in2 : LINT;
 END_VAR
-    EXPT__LREAL__LINT := EXPT__LREAL__DINT(in1, in2);
+    EXPT__LREAL__LINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
-- 
2.43.0

