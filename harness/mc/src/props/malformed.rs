//! C38 malformed texts: STRING that is not UTF-8, WSTRING with unpaired surrogates.
use super::strings::*;
use crate::core::*;
use crate::ffi::*;
use crate::*;

/// A character of a text, or a code unit that belongs to none.
type Item = Option<char>;

/// Unicode 3.9, table 3-7: `None` where the bytes are not well-formed
fn utf8(b: &[u8]) -> Option<Vec<char>> {
    let mut v = vec![];
    let mut i = 0;
    let t = |k: usize, lo: u8, hi: u8| b.get(k).map_or(false, |x| *x >= lo && *x <= hi);
    while i < b.len() {
        let (n, lo, hi) = match b[i] {
            0..=0x7f => (1, 0, 0),
            0xc2..=0xdf => (2, 0x80, 0xbf),
            0xe0 => (3, 0xa0, 0xbf),
            0xed => (3, 0x80, 0x9f),
            0xe1..=0xef => (3, 0x80, 0xbf),
            0xf0 => (4, 0x90, 0xbf),
            0xf4 => (4, 0x80, 0x8f),
            0xf1..=0xf3 => (4, 0x80, 0xbf),
            _ => return None,
        };
        if n > 1 && !t(i + 1, lo, hi) || (2..n).any(|k| !t(i + k, 0x80, 0xbf)) {
            return None;
        }
        let mut c = b[i] as u32 & [0, 0x7f, 0x1f, 0x0f, 0x07][n];
        for k in 1..n {
            c = c << 6 | (b[i + k] & 0x3f) as u32;
        }
        v.push(char::from_u32(c)?);
        i += n;
    }
    Some(v)
}
fn utf16(u: &[u16]) -> Vec<Item> {
    let mut v = vec![];
    let mut i = 0;
    while i < u.len() {
        let a = u[i] as u32;
        if a & 0xfc00 == 0xd800 && i + 1 < u.len() && u[i + 1] & 0xfc00 == 0xdc00 {
            v.push(char::from_u32(0x10000 + ((a & 0x3ff) << 10) + (u[i + 1] as u32 & 0x3ff)));
            i += 2;
        } else {
            v.push(char::from_u32(a));
            i += 1;
        }
    }
    v
}
trait Text: Unit {
    /// the text as a list of characters; `None`: no operation on characters is possible at all
    fn items(u: &[Self]) -> Option<Vec<Item>>;
    /// length of the character at the start (of a well-formed text)
    fn starts(u: &[Self]) -> Vec<usize>;
}
impl Text for u8 {
    fn items(u: &[u8]) -> Option<Vec<Item>> {
        utf8(u).map(|v| v.into_iter().map(Some).collect())
    }
    fn starts(u: &[u8]) -> Vec<usize> {
        (0..=u.len()).filter(|i| *i == u.len() || u[*i] & 0xc0 != 0x80).collect()
    }
}
impl Text for u16 {
    fn items(u: &[u16]) -> Option<Vec<Item>> {
        Some(utf16(u))
    }
    fn starts(u: &[u16]) -> Vec<usize> {
        let mut v = vec![];
        let mut i = 0;
        for c in utf16(u) {
            v.push(i);
            i += 1 + c.map_or(0, |c| (c as u32 > 0xffff) as usize);
        }
        v.push(i);
        v
    }
}
fn hex<U: Text>(u: &[U]) -> String {
    let s: Vec<String> = u.iter().take(24).map(|x| format!("{x:x?}")).collect();
    format!("{}[{}{}]", U::N, s.join(" "), if u.len() > 24 { format!(" .. {} units", u.len()) } else { String::new() })
}
/// as `strings::model`, on items
fn edit(op: Op, a: &[Item], b: &[Item]) -> Option<Vec<Item>> {
    let n = a.len() as i64;
    let cut = |c: i32, p: i32| {
        let (c, p) = (c as i64, p as i64);
        (c >= 0 && p >= 1 && p <= n && p - 1 + c <= n).then(|| ((p - 1) as usize, (p - 1 + c) as usize))
    };
    match op {
        Op::Left(c) => (c >= 0 && c as i64 <= n).then(|| a[..c as usize].to_vec()),
        Op::Right(c) => (c >= 0 && c as i64 <= n).then(|| a[(n - c as i64) as usize..].to_vec()),
        Op::Mid(c, p) => cut(c, p).map(|(x, y)| a[x..y].to_vec()),
        Op::Ins(p) => (p >= 0 && p as i64 <= n).then(|| [&a[..p as usize], b, &a[p as usize..]].concat()),
        Op::Del(c, p) => cut(c, p).map(|(x, y)| [&a[..x], &a[y..]].concat()),
        Op::Rep(c, p) => cut(c, p).map(|(x, y)| [&a[..x], b, &a[y..]].concat()),
    }
}
/// the code units of a result, `None` when it cannot be written
fn units<U: Text>(r: Option<Vec<Item>>) -> Option<Vec<U>> {
    r.and_then(|v| v.into_iter().collect::<Option<Vec<char>>>()).map(|v| U::enc(&v))
}
fn check_edit<U: Text>(cx: &mut Ctx, f: &Fns<U>, m: &Mem<U>, op: Op, a: &[U], b: &[U]) -> R {
    let want: Option<Vec<U>> = match (U::items(a), U::items(b)) {
        (Some(x), Some(y)) => units(edit(op, &x, if two(op) { &y } else { &[] })),
        (Some(x), None) if !two(op) => units(edit(op, &x, &[])),
        _ => None,
    };
    cx.case(want.is_none());
    cx.describe(|| format!("{op:?} on {} {}", hex(a), hex(b)));
    let srcs: &[&[U]] = if two(op) { &[a, b] } else { &[a] };
    m.produce(srcs, want.as_deref(), |s, d| invoke(f, op, s, d)).map_err(|e| {
        fail(format!("{op:?} {}", U::N), format!("{op:?} on {}{}: {e}", hex(a), if two(op) { format!(" with {}", hex(b)) } else { String::new() }))
    })
}
fn check_len<U: Text>(cx: &mut Ctx, f: &Fns<U>, m: &Mem<U>, a: &[U]) -> R {
    cx.case(true);
    let p = m.source(0, a);
    let got = tri(|| unsafe { (f.len)(p) });
    let want = U::items(a).map(|v| v.len() as i32);
    ensure!(got == want, "LEN", "LEN of {} = {got:?}, expected {want:?} (None: aborts)", hex(a));
    Ok(())
}
fn check_find<U: Text>(cx: &mut Ctx, f: &Fns<U>, m: &Mem<U>, a: &[U], b: &[U]) -> R {
    cx.case(true);
    let (p, q) = (m.source(0, a), m.source(1, b));
    cx.describe(|| format!("FIND {} in {}", hex(b), hex(a)));
    let got = tri(|| unsafe { (f.find)(p, q) });
    ensure!(m.source_intact(0, a) && m.source_intact(1, b), "FIND", "FIND {} in {} modified its operands", hex(b), hex(a));
    let at = if a.is_empty() || b.is_empty() || b.len() > a.len() { None } else { (0..=a.len() - b.len()).find(|i| &a[*i..*i + b.len()] == b) };
    let Some(g) = got else {
        // well-formed operands are C11's; a malformed one may be refused
        let ok = |u: &[U]| U::items(u).map_or(false, |v| v.iter().all(|c| c.is_some()));
        ensure!(!ok(a) || !ok(b), "FIND", "FIND {} in {} aborts", hex(b), hex(a));
        return Ok(());
    };
    match at {
        None => ensure!(g == 0, "FIND", "FIND {} in {} = {g}, expected 0", hex(b), hex(a)),
        Some(i) => {
            let s = U::starts(a);
            // a match that begins or ends inside a character has no position; nothing is promised about it but safety
            if s.contains(&i) && s.contains(&(i + b.len())) {
                // behind a malformed part positions are not defined, only bounded
                match U::items(&a[..i]) {
                    Some(v) => ensure!(g == v.len() as i32 + 1, "FIND", "FIND {} in {} = {g}, expected {}", hex(b), hex(a), v.len() + 1),
                    None => ensure!(g >= 1 && g <= i as i32 + 1, "FIND", "FIND {} in {} = {g}, expected a position up to {}", hex(b), hex(a), i + 1),
                }
            }
        }
    }
    Ok(())
}
fn check_cmp<U: Text>(cx: &mut Ctx, f: &Fns<U>, m: &Mem<U>, a: &[U], b: &[U]) -> R {
    let v = [m.source(0, a), m.source(1, b)];
    let o = a.cmp(b);
    for (k, (n, c)) in f.cmp.iter().enumerate() {
        cx.case(true);
        let want = [o.is_gt(), o.is_ge(), o.is_eq(), o.is_le(), o.is_lt()][k];
        let got = tri(|| unsafe { c(2, v.as_ptr()) });
        ensure!(got == Some(want), *n, "{n} of {} and {} = {got:?}, expected {want}", hex(a), hex(b));
    }
    let got = tri(|| unsafe { (f.ne)(v[0], v[1]) });
    ensure!(got == Some(o.is_ne()), "NE", "NE of {} and {} = {got:?}", hex(a), hex(b));
    Ok(())
}
fn check_concat<U: Text>(cx: &mut Ctx, f: &Fns<U>, m: &Mem<U>, l: &[&[U]]) -> R {
    let mut all = Some(vec![]);
    for s in l {
        match (&mut all, U::items(s)) {
            (Some(v), Some(x)) => v.extend(x),
            _ => all = None,
        }
    }
    let want = units::<U>(all);
    cx.case(want.is_none());
    cx.describe(|| format!("CONCAT of {}", l.iter().map(|x| hex(x)).collect::<Vec<_>>().join(", ")));
    m.produce(l, want.as_deref(), |s, d| unsafe { (f.concat_ext)(d, s.len() as i32, s.as_ptr()) })
        .map_err(|e| fail(format!("CONCAT {}", U::N), format!("CONCAT of {}: {e}", l.iter().map(|x| hex(x)).collect::<Vec<_>>().join(", "))))
}
fn check_numbers(cx: &mut Ctx, a: &[u8]) -> R {
    if utf8(a).is_some() {
        return Ok(());
    }
    let p = mem::<u8>().source(0, a);
    cx.describe(|| format!("STRING_TO numbers of {}", hex(a)));
    for (n, got) in [
        ("STRING_TO_LINT", tri(|| unsafe { STRING_TO_LINT(p) }.to_string())),
        ("STRING_TO_DINT", tri(|| unsafe { STRING_TO_DINT(p) }.to_string())),
        ("STRING_TO_LREAL", tri(|| unsafe { STRING_TO_LREAL(p) }.to_string())),
        ("STRING_TO_REAL", tri(|| unsafe { STRING_TO_REAL(p) }.to_string())),
    ] {
        cx.case(true);
        ensure!(got.is_none(), n, "{n} of {} = {}, expected an abort", hex(a), got.unwrap());
    }
    Ok(())
}
/// into the other encoding; the destination ends right behind the longest text an abort could leave
fn check_transcode8(cx: &mut Ctx, a: &[u8]) -> R {
    let w = utf8(a).map(|c| <u16 as Unit>::enc(&c));
    cx.case(w.is_none());
    cx.describe(|| format!("STRING_TO_WSTRING of {}", hex(a)));
    let p = mem::<u8>().source(0, a);
    mem::<u16>().produce(&[], w.as_deref(), |_, d| unsafe { STRING_TO_WSTRING_EXT(p, d) }).map_err(|e| fail("STRING_TO_WSTRING", format!("STRING_TO_WSTRING of {}: {e}", hex(a))))
}
fn check_transcode16(cx: &mut Ctx, a: &[u16]) -> R {
    let c: Vec<char> = utf16(a).into_iter().map(|c| c.unwrap_or('\u{fffd}')).collect();
    cx.case(true);
    cx.describe(|| format!("WSTRING_TO_STRING of {}", hex(a)));
    let p = mem::<u16>().source(0, a);
    mem::<u8>().produce(&[], Some(&<u8 as Unit>::enc(&c)), |_, d| unsafe { WSTRING_TO_STRING_EXT(p, d) }).map_err(|e| fail("WSTRING_TO_STRING", format!("WSTRING_TO_STRING of {}: {e}", hex(a))))
}
fn one<U: Text>(cx: &mut Ctx, a: &[U], good: &[U]) -> R {
    let (f, m) = (U::fns(), mem::<U>());
    check_len(cx, &f, m, a)?;
    let n = a.len().min(6) as i32;
    for c in -1..=n + 1 {
        check_edit(cx, &f, m, Op::Left(c), a, &[])?;
        check_edit(cx, &f, m, Op::Right(c), a, &[])?;
        check_edit(cx, &f, m, Op::Ins(c), a, good)?;
        check_edit(cx, &f, m, Op::Ins(c), good, a)?;
        for p in 1..=n {
            check_edit(cx, &f, m, Op::Mid(c, p), a, &[])?;
            check_edit(cx, &f, m, Op::Del(c, p), a, &[])?;
            check_edit(cx, &f, m, Op::Rep(c, p), a, good)?;
        }
    }
    check_edit(cx, &f, m, Op::Rep(1, 1), good, a)?;
    check_edit(cx, &f, m, Op::Rep(0, 1), good, a)?;
    check_concat(cx, &f, m, &[a])?;
    check_concat(cx, &f, m, &[good, a])?;
    check_concat(cx, &f, m, &[a, good])?;
    check_concat(cx, &f, m, &[good, a, good])?;
    check_find(cx, &f, m, a, good)?;
    check_find(cx, &f, m, good, a)?;
    check_find(cx, &f, m, a, a)
}
fn nth<U: Copy>(mut i: u64, al: &[U], len: usize) -> Vec<U> {
    (0..len).map(|_| al[dig(&mut i, al.len() as u64)]).collect()
}
fn all_to<U: Copy>(mut i: u64, al: &[U]) -> Vec<U> {
    let (mut n, mut p) = (0, 1);
    while i >= p {
        i -= p;
        p *= al.len() as u64;
        n += 1;
    }
    nth(i, al, n)
}
fn count_to(k: usize, l: u32) -> u64 {
    (0..=l).map(|n| (k as u64).pow(n)).sum()
}
const BYTES: [u8; 14] = [b'a', b'1', 0x7f, 0x80, 0x8f, 0x90, 0xa0, 0xbf, 0xc1, 0xc3, 0xe0, 0xed, 0xf0, 0xf4];
const WORDS: [u16; 8] = [0x61, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff];
/// every way a text can be malformed, to be put somewhere into a longer one
const BAD8: [&[u8]; 16] = [
    &[0x80], &[0xbf], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xc3], &[0xe0, 0x9f, 0xbf], &[0xe2, 0x82], &[0xe2], &[0xed, 0xa0, 0x80],
    &[0xf0, 0x8f, 0xbf, 0xbf], &[0xf0, 0x9f, 0x98], &[0xf0, 0x9f], &[0xf0], &[0xf4, 0x90, 0x80, 0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xff],
];
const BAD16: [&[u16]; 5] = [&[0xd83d], &[0xde00], &[0xde00, 0xd83d], &[0xd83d, 0xd83d, 0xde00], &[0xd83d, 0xde00, 0xde00]];

fn c38(t: Tier) -> Vec<Space> {
    let th = thorough(t);
    let mut v = vec![];
    let good8 = "bé€".as_bytes();
    let good16: Vec<u16> = "b😀c".encode_utf16().collect();
    let l8 = if th { 5 } else { 4 };
    v.push(space(format!("STRING: every list of up to {l8} bytes over {}", BYTES.len()), count_to(BYTES.len(), l8), move |i, cx| {
        let a = all_to(i, &BYTES);
        one::<u8>(cx, &a, good8)?;
        check_transcode8(cx, &a)?;
        check_numbers(cx, &a)?;
        cx.sample(|| hex(&a));
        Ok(())
    }));
    v.push(space("STRING: every two bytes", 256, move |i, cx| {
        for j in 0..256u64 {
            let a: Vec<u8> = [i as u8, j as u8].into_iter().filter(|x| *x != 0).collect();
            one::<u8>(cx, &a, good8)?;
            check_transcode8(cx, &a)?;
            check_numbers(cx, &a)?;
        }
        Ok(())
    }));
    if th {
        v.push(space("STRING: every three bytes", 65536, move |i, cx| {
            let (f, m) = (u8::fns(), mem::<u8>());
            for j in 1..256u64 {
                let a: Vec<u8> = [(i >> 8) as u8, i as u8, j as u8].into_iter().filter(|x| *x != 0).collect();
                check_len(cx, &f, m, &a)?;
                check_edit(cx, &f, m, Op::Left(1), &a, &[])?;
                check_transcode8(cx, &a)?;
            }
            Ok(())
        }));
    }
    let l16 = if th { 6 } else { 5 };
    v.push(space(format!("WSTRING: every list of up to {l16} words over {}", WORDS.len()), count_to(WORDS.len(), l16), {
        let g = good16.clone();
        move |i, cx| {
            let a = all_to(i, &WORDS);
            one::<u16>(cx, &a, &g)?;
            check_transcode16(cx, &a)?;
            cx.sample(|| hex(&a));
            Ok(())
        }
    }));
    v.push(space("WSTRING: every word between characters", 65536 / 64, move |i, cx| {
        for w in i as u16 * 64..=i as u16 * 64 + 63 {
            if w != 0 {
                for a in [&[w][..], &[0x61, w], &[w, 0x62], &[0x61, w, 0x62], &[0xd83d, w], &[w, 0xde00]] {
                    if th || w & 0xf800 == 0xd800 {
                        one::<u16>(cx, a, &[0x78, w])?;
                    } else {
                        let (f, m) = (u16::fns(), mem::<u16>());
                        check_len(cx, &f, m, a)?;
                        check_edit(cx, &f, m, Op::Left(1), a, &[])?;
                        check_edit(cx, &f, m, Op::Ins(1), a, a)?;
                        check_find(cx, &f, m, a, a)?;
                    }
                    check_transcode16(cx, a)?;
                }
            }
        }
        Ok(())
    }));
    // pairs
    let (p8, p16) = if th { (3, 4) } else { (2, 3) };
    v.push(space("STRING: pairs", count_to(BYTES.len(), p8), move |i, cx| {
        let (f, m) = (u8::fns(), mem::<u8>());
        let a = all_to(i, &BYTES);
        for j in 0..count_to(BYTES.len(), 2) {
            let b = all_to(j, &BYTES);
            check_find(cx, &f, m, &a, &b)?;
            check_find(cx, &f, m, &b, &a)?;
            check_cmp(cx, &f, m, &a, &b)?;
            check_concat(cx, &f, m, &[&a, &b])?;
            check_edit(cx, &f, m, Op::Ins(1), &a, &b)?;
            check_edit(cx, &f, m, Op::Rep(1, 1), &a, &b)?;
        }
        Ok(())
    }));
    v.push(space("WSTRING: pairs", count_to(WORDS.len(), p16), move |i, cx| {
        let (f, m) = (u16::fns(), mem::<u16>());
        let a = all_to(i, &WORDS);
        for j in 0..count_to(WORDS.len(), 3) {
            let b = all_to(j, &WORDS);
            check_find(cx, &f, m, &a, &b)?;
            check_cmp(cx, &f, m, &a, &b)?;
            check_concat(cx, &f, m, &[&a, &b])?;
            for k in 0..3 {
                check_edit(cx, &f, m, Op::Ins(k), &a, &b)?;
                check_edit(cx, &f, m, Op::Rep(k, 1), &a, &b)?;
            }
        }
        Ok(())
    }));
    // somewhere in a longer text
    let mut ns: Vec<usize> = (0..=if th { 300 } else { 70 }).collect();
    ns.extend([127, 128, 255, 256, 1023, 2040]);
    v.push(space("STRING: at every place of a text", ns.len() as u64, {
        let ns = ns.clone();
        move |i, cx| {
            let n = ns[i as usize];
            let (f, m) = (u8::fns(), mem::<u8>());
            for kind in [0, 1] {
                let text = texture(kind, n);
                let places: Vec<usize> = (0..=n).filter(|p| n <= 300 || *p < 3 || *p + 3 > n || *p % 97 == 0).collect();
                for p in places {
                    for bad in BAD8 {
                        let a = [&<u8 as Unit>::enc(&text[..p])[..], bad, &<u8 as Unit>::enc(&text[p..])].concat();
                        if a.len() > CAP {
                            continue;
                        }
                        check_len(cx, &f, m, &a)?;
                        for op in [Op::Left(0), Op::Left(p as i32), Op::Right(0), Op::Right((n - p) as i32), Op::Mid(1, 1), Op::Del(1, 1)] {
                            check_edit(cx, &f, m, op, &a, &[])?;
                        }
                        check_edit(cx, &f, m, Op::Ins(0), &a, good8)?;
                        check_edit(cx, &f, m, Op::Ins(1), good8, &a)?;
                        check_edit(cx, &f, m, Op::Rep(1, 1), &a, good8)?;
                        check_edit(cx, &f, m, Op::Rep(1, 1), good8, &a)?;
                        check_concat(cx, &f, m, &[good8, &a])?;
                        check_transcode8(cx, &a)?;
                        check_numbers(cx, &a)?;
                        check_find(cx, &f, m, &a, good8)?;
                        check_find(cx, &f, m, &a, bad)?;
                    }
                }
                cx.beat();
            }
            Ok(())
        }
    }));
    v.push(space("STRING: a numeral and what does not belong to it", 12, move |i, cx| {
        let n: [&[u8]; 12] = [b"1", b"-1", b"+7", b"16#A", b"0x1f", b"0X1f", b"8#17", b"2#101", b"0b11", b"1.5", b"1e3", b"inf"];
        for bad in BAD8 {
            for p in 0..=n[i as usize].len() {
                let a = [&n[i as usize][..p], bad, &n[i as usize][p..]].concat();
                check_numbers(cx, &a)?;
            }
        }
        Ok(())
    }));
    v.push(space("WSTRING: at every place of a text", ns.len() as u64, move |i, cx| {
        let n = ns[i as usize];
        let (f, m) = (u16::fns(), mem::<u16>());
        for kind in [0, 2] {
            let text = texture(kind, n);
            let places: Vec<usize> = (0..=n).filter(|p| n <= 300 || *p < 3 || *p + 3 > n || *p % 97 == 0).collect();
            for p in places {
                for bad in BAD16 {
                    let a = [&<u16 as Unit>::enc(&text[..p])[..], bad, &<u16 as Unit>::enc(&text[p..])].concat();
                    if a.len() > CAP / 4 * 3 {
                        continue;
                    }
                    let k = bad.len() as i32;
                    check_len(cx, &f, m, &a)?;
                    for op in [
                        Op::Left(p as i32), Op::Left(p as i32 + 1), Op::Right((n - p) as i32), Op::Right((n - p) as i32 + 1),
                        Op::Mid(p as i32, 1), Op::Del(k, p as i32 + 1), Op::Del(k - 1, p as i32 + 1), Op::Del(1, p as i32 + 1),
                    ] {
                        check_edit(cx, &f, m, op, &a, &[])?;
                    }
                    check_edit(cx, &f, m, Op::Ins(p as i32), &a, &good16)?;
                    check_edit(cx, &f, m, Op::Ins(1), &good16, &a)?;
                    check_edit(cx, &f, m, Op::Rep(k, p as i32 + 1), &a, &good16)?;
                    check_concat(cx, &f, m, &[&good16, &a])?;
                    check_transcode16(cx, &a)?;
                    check_find(cx, &f, m, &a, &good16)?;
                }
            }
            cx.beat();
        }
        Ok(())
    }));
    v
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C38", level: "exploration", exhaustive: true, spaces: c38,
        assumptions: &["texts are NUL-terminated", "source and destination do not overlap (the ST wrappers never let them)", "a match of FIND that begins or ends inside a character, or behind a malformed part of a STRING, has no exact position"],
        rule: "one case = one call with operands at guard pages; all lists of up to 4 (thorough 5) bytes over 14 that reach every row of the UTF-8 table, all pairs (thorough triples) of bytes, all lists of up to 5 (6) words over 8, every word next to characters and halves, pairs, 16 + 5 malformations at every place of texts to length 70 (300) and at evenly spaced places of texts to the capacity; non-trivial: an abort or a repair is expected" }]
}
