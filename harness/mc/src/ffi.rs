//! Bindings to the exported symbols of the library under test, exactly as the ST layer links them.
//! "C-unwind" so that an abort (panic) of the callee can be observed.
#![allow(non_snake_case, dead_code)]
use paste::paste;

pub type Fb = unsafe extern "C-unwind" fn(*mut u8);

macro_rules! c {
    ($($(#[$m:meta])* fn $n:ident($($a:ident : $t:ty),*) $(-> $r:ty)?;)*) => {
        extern "C-unwind" { $(pub fn $n($($a: $t),*) $(-> $r)?;)* }
    };
}

// ---- function blocks
macro_rules! fbs { ($($n:ident)*) => { c! { $(fn $n(p: *mut u8);)* } pub static FBS: &[(&str, Fb)] = &[$((stringify!($n), $n as Fb)),*]; } }
fbs! {
    CTU CTU_INT CTU_DINT CTU_UDINT CTU_LINT CTU_ULINT
    CTD CTD_INT CTD_DINT CTD_UDINT CTD_LINT CTD_ULINT
    CTUD CTUD_INT CTUD_DINT CTUD_UDINT CTUD_LINT CTUD_ULINT
    R_TRIG F_TRIG SR RS
    TP TP_TIME TP_LTIME TON TON_TIME TON_LTIME TOF TOF_TIME TOF_LTIME
}
pub fn fb(name: &str) -> Fb {
    FBS.iter().find(|f| f.0 == name).expect("fb").1
}

// ---- strings
c! {
    fn LEN__STRING(s: *const u8) -> i32;
    fn LEN__WSTRING(s: *const u16) -> i32;
    fn FIND__STRING(a: *const u8, b: *const u8) -> i32;
    fn FIND__WSTRING(a: *const u16, b: *const u16) -> i32;
    fn LEFT_EXT__STRING(s: *const u8, n: i32, d: *mut u8) -> i32;
    fn LEFT_EXT__WSTRING(s: *const u16, n: i32, d: *mut u16) -> i32;
    fn RIGHT_EXT__STRING(s: *const u8, n: i32, d: *mut u8) -> i32;
    fn RIGHT_EXT__WSTRING(s: *const u16, n: i32, d: *mut u16) -> i32;
    fn MID_EXT__STRING(s: *const u8, n: i32, p: i32, d: *mut u8) -> i32;
    fn MID_EXT__WSTRING(s: *const u16, n: i32, p: i32, d: *mut u16) -> i32;
    fn INSERT_EXT__STRING(a: *const u8, b: *const u8, p: i32, d: *mut u8) -> i32;
    fn INSERT_EXT__WSTRING(a: *const u16, b: *const u16, p: i32, d: *mut u16) -> i32;
    fn DELETE_EXT__STRING(s: *const u8, n: i32, p: i32, d: *mut u8) -> i32;
    fn DELETE_EXT__WSTRING(s: *const u16, n: i32, p: i32, d: *mut u16) -> i32;
    fn REPLACE_EXT__STRING(a: *const u8, b: *const u8, n: i32, p: i32, d: *mut u8) -> i32;
    fn REPLACE_EXT__WSTRING(a: *const u16, b: *const u16, n: i32, p: i32, d: *mut u16) -> i32;
    fn CONCAT__STRING(d: *mut u8, c: i32, v: *const *const u8);
    fn CONCAT__WSTRING(d: *mut u16, c: i32, v: *const *const u16);
    fn CONCAT_EXT__STRING(d: *mut u8, c: i32, v: *const *const u8) -> i32;
    fn CONCAT_EXT__WSTRING(d: *mut u16, c: i32, v: *const *const u16) -> i32;
    fn GT__STRING(c: i32, v: *const *const u8) -> bool;
    fn GE__STRING(c: i32, v: *const *const u8) -> bool;
    fn EQ__STRING(c: i32, v: *const *const u8) -> bool;
    fn LE__STRING(c: i32, v: *const *const u8) -> bool;
    fn LT__STRING(c: i32, v: *const *const u8) -> bool;
    fn NE__STRING(a: *const u8, b: *const u8) -> bool;
    fn GT__WSTRING(c: i32, v: *const *const u16) -> bool;
    fn GE__WSTRING(c: i32, v: *const *const u16) -> bool;
    fn EQ__WSTRING(c: i32, v: *const *const u16) -> bool;
    fn LE__WSTRING(c: i32, v: *const *const u16) -> bool;
    fn LT__WSTRING(c: i32, v: *const *const u16) -> bool;
    fn NE__WSTRING(a: *const u16, b: *const u16) -> bool;
    fn WSTRING_TO_STRING_EXT(s: *const u16, d: *mut u8) -> i32;
    fn STRING_TO_WSTRING_EXT(s: *const u8, d: *mut u16) -> i32;
    fn WCHAR_TO_CHAR(i: u16) -> u8;
    fn CHAR_TO_WCHAR(i: u8) -> u16;
    fn BYTE_TO_STRING_EXT(i: u8, d: *mut u8) -> i32;
    fn LWORD_TO_STRING_EXT(i: u64, d: *mut u8) -> i32;
    fn LINT_TO_STRING_EXT(i: i64, d: *mut u8) -> i32;
    fn LREAL_TO_STRING_EXT(i: f64, d: *mut u8) -> i32;
    fn REAL_TO_STRING_EXT(i: f64, d: *mut u8) -> i32;
    fn STRING_TO_LINT(s: *const u8) -> i64;
    fn STRING_TO_DINT(s: *const u8) -> i32;
    fn STRING_TO_LREAL(s: *const u8) -> f64;
    fn STRING_TO_REAL(s: *const u8) -> f32;
    fn TIME() -> i64;
    fn TIME_TO_STRING_EXT(i: i64, d: *mut u8) -> i32;
    fn DT_TO_STRING_EXT(i: i64, d: *mut u8) -> i32;
    fn DATE_TO_STRING_EXT(i: i64, d: *mut u8) -> i32;
    fn TOD_TO_STRING_EXT(i: i64, d: *mut u8) -> i32;
}

// ---- dates and times
c! {
    fn DATE_AND_TIME_TO_DATE(i: i64) -> i64;
    fn DATE_AND_TIME_TO_TIME_OF_DAY(i: i64) -> i64;
    fn CONCAT_DATE_TOD(a: i64, b: i64) -> i64;
    fn DAY_OF_WEEK(i: i64) -> i8;
    fn ADD_TIME(a: i64, b: i64) -> i64;
    fn ADD_TOD_TIME(a: i64, b: i64) -> i64;
    fn ADD_DT_TIME(a: i64, b: i64) -> i64;
    fn SUB_TIME(a: i64, b: i64) -> i64;
    fn SUB_DATE_DATE(a: i64, b: i64) -> i64;
    fn SUB_TOD_TIME(a: i64, b: i64) -> i64;
    fn SUB_TOD_TOD(a: i64, b: i64) -> i64;
    fn SUB_DT_TIME(a: i64, b: i64) -> i64;
    fn SUB_DT_DT(a: i64, b: i64) -> i64;
}
pub struct IntTy {
    pub name: &'static str,
    pub bits: u32,
    pub signed: bool,
}
impl IntTy {
    pub fn lo(&self) -> i128 {
        if self.signed {
            -(1i128 << (self.bits - 1))
        } else {
            0
        }
    }
    pub fn hi(&self) -> i128 {
        if self.signed {
            (1i128 << (self.bits - 1)) - 1
        } else {
            (1i128 << self.bits) - 1
        }
    }
    pub fn has(&self, v: i128) -> bool {
        v >= self.lo() && v <= self.hi()
    }
}
macro_rules! intty { ($t:ident) => { IntTy { name: stringify!($t), bits: <rs!($t)>::BITS, signed: <rs!($t)>::MIN != 0 } } }
macro_rules! rs {
    (SINT) => { i8 }; (INT) => { i16 }; (DINT) => { i32 }; (LINT) => { i64 };
    (USINT) => { u8 }; (UINT) => { u16 }; (UDINT) => { u32 }; (ULINT) => { u64 };
}
type Scale = (&'static str, IntTy, bool, fn(i64, i128) -> i64);
macro_rules! scales {
    ($($t:ident)*) => { paste! {
        c! { $(
            fn [<MUL__TIME__ $t>](a: i64, b: rs!($t)) -> i64;
            fn [<MUL_TIME__ $t>](a: i64, b: rs!($t)) -> i64;
            fn [<MUL_LTIME__ $t>](a: i64, b: rs!($t)) -> i64;
            fn [<DIV__TIME__ $t>](a: i64, b: rs!($t)) -> i64;
            fn [<DIV_TIME__ $t>](a: i64, b: rs!($t)) -> i64;
            fn [<DIV_LTIME__ $t>](a: i64, b: rs!($t)) -> i64;
        )* }
        /// name, operand type, is division, call
        pub fn scales() -> Vec<Scale> { vec![ $(
            (stringify!([<MUL__TIME__ $t>]), intty!($t), false, |a, b| unsafe { [<MUL__TIME__ $t>](a, b as rs!($t)) }),
            (stringify!([<MUL_TIME__ $t>]), intty!($t), false, |a, b| unsafe { [<MUL_TIME__ $t>](a, b as rs!($t)) }),
            (stringify!([<MUL_LTIME__ $t>]), intty!($t), false, |a, b| unsafe { [<MUL_LTIME__ $t>](a, b as rs!($t)) }),
            (stringify!([<DIV__TIME__ $t>]), intty!($t), true, |a, b| unsafe { [<DIV__TIME__ $t>](a, b as rs!($t)) }),
            (stringify!([<DIV_TIME__ $t>]), intty!($t), true, |a, b| unsafe { [<DIV_TIME__ $t>](a, b as rs!($t)) }),
            (stringify!([<DIV_LTIME__ $t>]), intty!($t), true, |a, b| unsafe { [<DIV_LTIME__ $t>](a, b as rs!($t)) }),
        )* ] }
    } };
}
scales!(SINT INT DINT LINT USINT UINT UDINT ULINT);
macro_rules! fscales { ($t:ident $r:ty) => { paste! {
    c! {
        fn [<MUL__TIME__ $t>](a: i64, b: $r) -> i64;
        fn [<MUL_TIME__ $t>](a: i64, b: $r) -> i64;
        fn [<MUL_LTIME__ $t>](a: i64, b: $r) -> i64;
        fn [<DIV__TIME__ $t>](a: i64, b: $r) -> i64;
        fn [<DIV_TIME__ $t>](a: i64, b: $r) -> i64;
        fn [<DIV_LTIME__ $t>](a: i64, b: $r) -> i64;
    }
    pub fn [<fscales_ $t:lower>]() -> Vec<(&'static str, bool, unsafe extern "C-unwind" fn(i64, $r) -> i64)> { vec![
        (stringify!([<MUL__TIME__ $t>]), false, [<MUL__TIME__ $t>]),
        (stringify!([<MUL_TIME__ $t>]), false, [<MUL_TIME__ $t>]),
        (stringify!([<MUL_LTIME__ $t>]), false, [<MUL_LTIME__ $t>]),
        (stringify!([<DIV__TIME__ $t>]), true, [<DIV__TIME__ $t>]),
        (stringify!([<DIV_TIME__ $t>]), true, [<DIV_TIME__ $t>]),
        (stringify!([<DIV_LTIME__ $t>]), true, [<DIV_LTIME__ $t>]),
    ] }
} } }
fscales!(REAL f32);
fscales!(LREAL f64);

type Compose = (&'static str, IntTy, fn([i128; 4]) -> i64);
macro_rules! concat_date { ($($t:ident)*) => { paste! {
    c! { $(fn [<CONCAT_DATE__ $t>](y: rs!($t), m: rs!($t), d: rs!($t)) -> i64;)* }
    pub fn concat_dates() -> Vec<Compose> { vec![ $((stringify!([<CONCAT_DATE__ $t>]), intty!($t), |v| unsafe { [<CONCAT_DATE__ $t>](v[0] as rs!($t), v[1] as rs!($t), v[2] as rs!($t)) }),)* ] }
} } }
concat_date!(INT UINT DINT UDINT LINT ULINT);
macro_rules! concat_tod { ($($t:ident)*) => { paste! {
    c! { $(fn [<CONCAT_TOD__ $t>](h: rs!($t), m: rs!($t), s: rs!($t), ms: rs!($t)) -> i64;)* }
    pub fn concat_tods() -> Vec<Compose> { vec![ $((stringify!([<CONCAT_TOD__ $t>]), intty!($t), |v| unsafe { [<CONCAT_TOD__ $t>](v[0] as rs!($t), v[1] as rs!($t), v[2] as rs!($t), v[3] as rs!($t)) }),)* ] }
} } }
concat_tod!(SINT USINT INT UINT DINT UDINT LINT ULINT);
/// outputs sit in an array of 8-byte cells pre-filled with a pattern; only the low bytes may change
type Split = (&'static str, IntTy, fn(i64, &mut [u64; 9]) -> i16);
macro_rules! splits { ($($t:ident)*) => { paste! {
    c! { $(
        fn [<SPLIT_DATE__ $t>](i: i64, a: *mut rs!($t), b: *mut rs!($t), c: *mut rs!($t)) -> i16;
        fn [<SPLIT_TOD__ $t>](i: i64, a: *mut rs!($t), b: *mut rs!($t), c: *mut rs!($t), d: *mut rs!($t)) -> i16;
        fn [<SPLIT_DT__ $t>](i: i64, a: *mut rs!($t), b: *mut rs!($t), c: *mut rs!($t), d: *mut rs!($t), e: *mut rs!($t), f: *mut rs!($t), g: *mut rs!($t)) -> i16;
    )* }
    pub fn split_dates() -> Vec<Split> { vec![ $((stringify!([<SPLIT_DATE__ $t>]), intty!($t), |i, o| unsafe { let p = o.as_mut_ptr(); [<SPLIT_DATE__ $t>](i, p.add(1) as _, p.add(2) as _, p.add(3) as _) }),)* ] }
    pub fn split_tods() -> Vec<Split> { vec![ $((stringify!([<SPLIT_TOD__ $t>]), intty!($t), |i, o| unsafe { let p = o.as_mut_ptr(); [<SPLIT_TOD__ $t>](i, p.add(1) as _, p.add(2) as _, p.add(3) as _, p.add(4) as _) }),)* ] }
    pub fn split_dts() -> Vec<Split> { vec![ $((stringify!([<SPLIT_DT__ $t>]), intty!($t), |i, o| unsafe { let p = o.as_mut_ptr(); [<SPLIT_DT__ $t>](i, p.add(1) as _, p.add(2) as _, p.add(3) as _, p.add(4) as _, p.add(5) as _, p.add(6) as _, p.add(7) as _) }),)* ] }
} } }
splits!(INT UINT DINT UDINT LINT ULINT);

// ---- bits: bound with full-width registers, so that the binding holds for the Rust and the C calling convention
macro_rules! shifts { ($($t:ident $b:literal),*) => { paste! {
    c! { $(
        fn [<SHL__ $t>](i: u64, n: u32) -> u64; fn [<SHR__ $t>](i: u64, n: u32) -> u64;
        fn [<ROL__ $t>](i: u64, n: u32) -> u64; fn [<ROR__ $t>](i: u64, n: u32) -> u64;
    )* }
    pub static SHIFTS: &[(&str, u8, u32, unsafe extern "C-unwind" fn(u64, u32) -> u64)] = &[ $(
        (stringify!([<SHL__ $t>]), 0, $b, [<SHL__ $t>]), (stringify!([<SHR__ $t>]), 1, $b, [<SHR__ $t>]),
        (stringify!([<ROL__ $t>]), 2, $b, [<ROL__ $t>]), (stringify!([<ROR__ $t>]), 3, $b, [<ROR__ $t>]),
    )* ];
} } }
shifts!(BYTE 8, WORD 16, DWORD 32, LWORD 64);
macro_rules! endian { ($($t:ident $b:literal $s:literal),*) => { paste! {
    c! { $(
        fn [<TO_BIG_ENDIAN__ $t>](i: u64) -> u64; fn [<TO_LITTLE_ENDIAN__ $t>](i: u64) -> u64;
        fn [<FROM_BIG_ENDIAN__ $t>](i: u64) -> u64; fn [<FROM_LITTLE_ENDIAN__ $t>](i: u64) -> u64;
    )* }
    /// name, bits, signed, swaps, call
    pub static ENDIAN: &[(&str, u32, bool, bool, unsafe extern "C-unwind" fn(u64) -> u64)] = &[ $(
        (stringify!([<TO_BIG_ENDIAN__ $t>]), $b, $s, true, [<TO_BIG_ENDIAN__ $t>]),
        (stringify!([<TO_LITTLE_ENDIAN__ $t>]), $b, $s, false, [<TO_LITTLE_ENDIAN__ $t>]),
        (stringify!([<FROM_BIG_ENDIAN__ $t>]), $b, $s, false, [<FROM_BIG_ENDIAN__ $t>]),
        (stringify!([<FROM_LITTLE_ENDIAN__ $t>]), $b, $s, true, [<FROM_LITTLE_ENDIAN__ $t>]),
    )* ];
} } }
endian!(INT 16 true, DINT 32 true, LINT 64 true, UINT 16 false, UDINT 32 false, ULINT 64 false, WORD 16 false, DWORD 32 false,
    LWORD 64 false, WCHAR 16 false, DATE 64 true, TIME_OF_DAY 64 true, DATE_AND_TIME 64 true);
macro_rules! un { ($list:ident $r:ty: $($n:ident)*) => {
    c! { $(fn $n(i: $r) -> $r;)* }
    pub static $list: &[(&str, unsafe extern "C-unwind" fn($r) -> $r)] = &[$((stringify!($n), $n)),*];
} }
un!(ENDIAN32 f32: TO_BIG_ENDIAN__REAL TO_LITTLE_ENDIAN__REAL FROM_BIG_ENDIAN__REAL FROM_LITTLE_ENDIAN__REAL);
un!(ENDIAN64 f64: TO_BIG_ENDIAN__LREAL TO_LITTLE_ENDIAN__LREAL FROM_BIG_ENDIAN__LREAL FROM_LITTLE_ENDIAN__LREAL);
c! {
    fn LWORD_TO_LREAL(i: u64) -> f64;
    fn DWORD_TO_REAL(i: u32) -> f32;
    fn LREAL_TO_LWORD(i: f64) -> u64;
    fn REAL_TO_DWORD(i: f32) -> u32;
    fn IS_VALID__REAL(i: f32) -> bool;
    fn IS_VALID__LREAL(i: f64) -> bool;
    fn IS_VALID_BCD__BYTE(i: u8) -> bool;
    fn IS_VALID_BCD__WORD(i: u16) -> bool;
    fn IS_VALID_BCD__DWORD(i: u32) -> bool;
    fn IS_VALID_BCD__LWORD(i: u64) -> bool;
}

// ---- numerics
un!(UN32 f32: SQRT__REAL LN__REAL LOG__REAL EXP__REAL SIN__REAL COS__REAL TAN__REAL ASIN__REAL ACOS__REAL ATAN__REAL ROUND__REAL);
un!(UN64 f64: SQRT__LREAL LN__LREAL LOG__LREAL EXP__LREAL SIN__LREAL COS__LREAL TAN__LREAL ASIN__LREAL ACOS__LREAL ATAN__LREAL ROUND__LREAL);
c! {
    fn ATAN2__REAL(a: f32, b: f32) -> f32;
    fn ATAN2__LREAL(a: f64, b: f64) -> f64;
    fn EXPT__REAL__DINT(a: f32, b: i32) -> f32;
    fn EXPT__LREAL__DINT(a: f64, b: i32) -> f64;
    fn EXPT__REAL__REAL(a: f32, b: f32) -> f32;
    fn EXPT__REAL__LREAL(a: f32, b: f64) -> f32;
    fn EXPT__LREAL__REAL(a: f64, b: f32) -> f64;
    fn EXPT__LREAL__LREAL(a: f64, b: f64) -> f64;
}
extern "C" {
    pub static PI_LREAL: f64;
    pub static PI_REAL: f32;
    pub static FRAC_PI_2_LREAL: f64;
    pub static FRAC_PI_2_REAL: f32;
    pub static FRAC_PI_4_LREAL: f64;
    pub static FRAC_PI_4_REAL: f32;
    pub static E_REAL: f32;
    pub static E_LREAL: f64;
}

// ---- selectors
macro_rules! sel { ($list:ident $r:ty: $($t:ident)*) => { paste! {
    c! { $(
        fn [<MAX__ $t>](n: u32, v: *const $r) -> $r;
        fn [<MIN__ $t>](n: u32, v: *const $r) -> $r;
        fn [<LIMIT__ $t>](mn: $r, v: $r, mx: $r) -> $r;
    )* }
    pub static $list: &[(&str, unsafe extern "C-unwind" fn(u32, *const $r) -> $r, unsafe extern "C-unwind" fn(u32, *const $r) -> $r, unsafe extern "C-unwind" fn($r, $r, $r) -> $r)] =
        &[ $((stringify!($t), [<MAX__ $t>], [<MIN__ $t>], [<LIMIT__ $t>])),* ];
} } }
sel!(SEL_U8 u8: BOOL BYTE CHAR USINT);
sel!(SEL_U16 u16: WORD WCHAR UINT);
sel!(SEL_U32 u32: DWORD UDINT);
sel!(SEL_U64 u64: LWORD ULINT);
sel!(SEL_I8 i8: SINT);
sel!(SEL_I16 i16: INT);
sel!(SEL_I32 i32: DINT);
sel!(SEL_I64 i64: LINT DATE DATE_AND_TIME TIME TIME_OF_DAY);
sel!(SEL_F32 f32: REAL);
sel!(SEL_F64 f64: LREAL);
