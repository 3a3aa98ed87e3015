//! The assembler: numbers, characters and escapes.

use std::borrow::Cow;

use telda2::source::{verif, ErrorType, SourceOperand};

use crate::nd;
use crate::{assume, check, reach};

/// A number of D digits in a base, with a suffix. `tail` are the last digits the proof is about.
fn number<const D: usize>(base: u32, neg: bool, suffix: Option<u8>, tail: fn(u8) -> bool) {
    let mut text = [0u8; 16];
    let mut n = 0;
    let prefix: &[u8] = match base {
        16 => b"0x",
        8 => b"0o",
        2 => b"0b",
        _ => b"",
    };
    let mut i = 0;
    while i < prefix.len() {
        text[n] = prefix[i];
        n += 1;
        i += 1;
    }
    if neg {
        text[n] = b'-';
        n += 1;
    }
    let mut value: i64 = 0;
    let mut i = 0;
    while i < D {
        let d = nd::u8();
        assume!((d as u32) < base);
        let c = if d < 10 {
            b'0' + d
        } else if nd::bool() {
            b'a' + d - 10
        } else {
            b'A' + d - 10
        };
        if i + 1 == D {
            assume!(tail(c));
        }
        text[n] = c;
        n += 1;
        value = value * base as i64 + d as i64;
        i += 1;
    }
    if neg {
        value = -value;
    }
    if let Some(c) = suffix {
        text[n] = c;
        n += 1;
    }
    let s = unsafe { core::str::from_utf8_unchecked(&text[..n]) };
    let got = verif::number(s);
    match got {
        Ok(SourceOperand::Byte(v)) => {
            check!(suffix == Some(b'b'), "only the suffix b makes a byte");
            check!(-128 <= value && value <= 255 && v == value as u8, "a byte has the value of its digits");
        }
        Ok(SourceOperand::Wide(v)) => {
            check!(suffix == Some(b'w'), "only the suffix w makes a wide");
            check!(-0x8000 <= value && value <= 0xffff && v == value as u16, "a wide has the value of its digits");
        }
        Ok(SourceOperand::Number(v)) => {
            check!(suffix.is_none(), "a number without a suffix is neither byte nor wide");
            check!(v as i64 == value, "a number has the value of its digits");
        }
        Ok(SourceOperand::Label(_)) => {
            check!(
                match suffix {
                    Some(b'b') => !(-128 <= value && value <= 255),
                    Some(_) => !(-0x8000 <= value && value <= 0xffff),
                    None => !(-0x8000_0000 <= value && value <= 0x7fff_ffff),
                },
                "digits within the range of what they denote are a number"
            );
        }
        _ => check!(false, "digits are a number"),
    }
    reach!(true, "number");
    core::mem::forget(got);
}
/// Now: hexadecimal digits the last of which is `b` are a byte without it
fn ends_in_b() {
    let d = nd::u8();
    assume!(d < 16);
    let c = if d < 10 { b'0' + d } else { b'a' + d - 10 };
    let text = [b'0', b'x', c, b'b'];
    let got = verif::number(unsafe { core::str::from_utf8_unchecked(&text) });
    match got {
        Ok(SourceOperand::Byte(v)) => {
            check!(v == d, "hexadecimal digits before a b are a byte");
        }
        _ => check!(false, "hexadecimal digits before a b are a byte"),
    }
    reach!(true, "number");
    core::mem::forget(got);
}
fn any(_: u8) -> bool {
    true
}
fn hex_but_b(c: u8) -> bool {
    c != b'b'
}
fn hex_b(c: u8) -> bool {
    c == b'b'
}

/// What does not begin like a number or a character is a label
fn label<const N: usize>() {
    let text: [u8; N] = nd::u8s();
    let mut i = 0;
    while i < N {
        assume!(text[i] < 128);
        i += 1;
    }
    let c = text[0];
    assume!(!(b'0' <= c && c <= b'9') && c != b'-' && c != b'+' && c != b'\'');
    let got = verif::number(unsafe { core::str::from_utf8_unchecked(&text) });
    match &got {
        Ok(SourceOperand::Label(l)) => {
            let l = l.as_bytes();
            let mut same = l.len() == N;
            let mut i = 0;
            while i < N {
                same = same && l[i] == text[i];
                i += 1;
            }
            check!(same, "a label has the name that is written");
        }
        _ => check!(false, "what does not begin like a number or a character is a label"),
    }
    reach!(true, "label");
    core::mem::forget(got);
}

fn hex(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}
/// What the first character of some bytes denotes: its value and how many bytes it takes
fn spec(s: &[u8]) -> Result<(u8, usize), ErrorType> {
    use ErrorType::*;
    if s.len() == 0 {
        return Err(UnexpectedEndOfString);
    }
    if s[0] != b'\\' {
        return Ok((s[0], 1));
    }
    if s.len() == 1 {
        return Err(EscapeCharacterAtEnd);
    }
    Ok((
        match s[1] {
            b'r' => 13,
            b't' => 9,
            b'n' => 10,
            b'0' => 0,
            b'\\' => 0x5c,
            b'\'' => 0x27,
            b'"' => 0x22,
            b'x' => {
                if s.len() < 4 {
                    return Err(InvalidEscapeSequence);
                }
                match (hex(s[2]), hex(s[3])) {
                    (Some(a), Some(b)) => return Ok((a * 16 + b, 4)),
                    _ => return Err(InvalidEscapeSequence),
                }
            }
            c => return Err(InvalidEscapeCharacter(c)),
        },
        2,
    ))
}
fn character<const N: usize>() {
    let text: [u8; N] = nd::u8s();
    // a sign before the second digit is not a digit
    assume!(!(N >= 4 && text[0] == b'\\' && text[1] == b'x' && text[2] == b'+'));
    let got = verif::bytechar(&text);
    match (got, spec(&text)) {
        (Ok((c, rest)), Ok((wc, used))) => {
            check!(c == wc, "a character or an escape sequence denotes its byte");
            check!(rest.len() == N - used && rest.as_ptr() == unsafe { text.as_ptr().add(used) }, "the rest begins after it");
            reach!(used == N || N > 4, "used up");
        }
        (Err(_), Err(_)) => {
            reach!(true, "error");
        }
        (Ok(_), Err(_)) => check!(false, "unfinished and unknown escape sequences are refused"),
        (Err(_), Ok(_)) => check!(false, "characters and escape sequences are accepted"),
    }
}

/// String::from_utf8_lossy: ASCII stays, anything else is something else that is no digit
fn s_lossy(v: &[u8]) -> Cow<'_, str> {
    let mut i = 0;
    while i < v.len() {
        if v[i] >= 128 {
            return Cow::Borrowed("\u{fffd}");
        }
        i += 1;
    }
    Cow::Borrowed(unsafe { core::str::from_utf8_unchecked(v) })
}

/// parse_bytechar, as the proofs lit_char_* prove it: for texts that are no characters
fn s_bytechar(_: &[u8]) -> Result<(u8, &[u8]), ErrorType> {
    check!(false, "only what is in quotes is a character");
    Err(ErrorType::UnexpectedEndOfString)
}
static mut C: (usize, usize, u8, usize) = (0, 0, 0, 0);
/// parse_bytechar: some error, or some byte and a part of the text as rest
fn s_any_char(s: &[u8]) -> Result<(u8, &[u8]), ErrorType> {
    unsafe {
        C.0 = s.as_ptr() as usize;
        C.1 = s.len();
        if C.3 <= s.len() {
            Ok((C.2, &s[C.3..]))
        } else {
            Err(ErrorType::EscapeCharacterAtEnd)
        }
    }
}
/// 'c': the character between the quotes, and nothing else
fn quoted<const N: usize>() {
    let mut text: [u8; N] = nd::u8s();
    text[0] = b'\'';
    text[N - 1] = b'\'';
    let mut i = 0;
    while i < N {
        assume!(text[i] < 128);
        i += 1;
    }
    let (c, used) = (nd::u8(), nd::usize());
    unsafe { C = (0, 0, c, used) }
    let got = verif::number(unsafe { core::str::from_utf8_unchecked(&text) });
    #[cfg(kani)]
    unsafe {
        check!(C.0 == text.as_ptr() as usize + 1 && C.1 == N - 2, "the character is what is between the quotes");
    }
    #[cfg(not(kani))]
    let used = match verif::bytechar(&text[1..N - 1]) {
        Ok((_, rest)) => N - 2 - rest.len(),
        Err(_) => N,
    };
    #[cfg(not(kani))]
    let c = verif::bytechar(&text[1..N - 1]).map_or(0, |c| c.0);
    match &got {
        Ok(SourceOperand::Byte(b)) => {
            check!(used == N - 2 && *b == c, "a character denotes its byte");
            reach!(true, "character");
        }
        Ok(_) => check!(false, "what is in quotes is a byte"),
        Err(_) => check!(used != N - 2, "a character in quotes is accepted"),
    }
    reach!(got.is_err(), "refused");
    core::mem::forget(got);
}

macro_rules! numbers {
    ($($name:ident $unwind:literal: $d:literal, $base:literal, $neg:literal, $suffix:expr, $tail:path;)*) => {
        crate::proofs! {
            $($name, $unwind, [telda2::source::parse_bytechar => s_bytechar] { number::<$d>($base, $neg, $suffix, $tail); })*
            lit_hex_end_b_now, 6, [telda2::source::parse_bytechar => s_bytechar] { ends_in_b(); }
            lit_label_1, 12, [telda2::source::parse_bytechar => s_bytechar] { label::<1>(); }
            lit_label_2, 12, [telda2::source::parse_bytechar => s_bytechar] { label::<2>(); }
            lit_label_3, 12, [telda2::source::parse_bytechar => s_bytechar] { label::<3>(); }
            lit_label_4, 12, [telda2::source::parse_bytechar => s_bytechar] { label::<4>(); }
            lit_quoted_3, 12, [telda2::source::parse_bytechar => s_any_char] { quoted::<3>(); }
            lit_quoted_4, 12, [telda2::source::parse_bytechar => s_any_char] { quoted::<4>(); }
            lit_quoted_6, 12, [telda2::source::parse_bytechar => s_any_char] { quoted::<6>(); }
            lit_char_0, 12, [std::string::String::from_utf8_lossy => s_lossy] { character::<0>(); }
            lit_char_1, 12, [std::string::String::from_utf8_lossy => s_lossy] { character::<1>(); }
            lit_char_2, 12, [std::string::String::from_utf8_lossy => s_lossy] { character::<2>(); }
            lit_char_3, 12, [std::string::String::from_utf8_lossy => s_lossy] { character::<3>(); }
            lit_char_4, 12, [std::string::String::from_utf8_lossy => s_lossy] { character::<4>(); }
            lit_char_5, 12, [std::string::String::from_utf8_lossy => s_lossy] { character::<5>(); }
        }
    };
}
numbers! {
    lit_dec_1 5: 1, 10, false, None, any;
    lit_dec_2 5: 2, 10, false, None, any;
    lit_dec_5 7: 5, 10, false, None, any;
    lit_dec_neg_5 8: 5, 10, true, None, any;
    lit_dec_3b 6: 3, 10, false, Some(b'b'), any;
    lit_dec_neg_3b 7: 3, 10, true, Some(b'b'), any;
    lit_dec_5w 8: 5, 10, false, Some(b'w'), any;
    lit_dec_neg_5w 9: 5, 10, true, Some(b'w'), any;
    lit_hex_1 5: 1, 16, false, None, hex_but_b;
    lit_hex_2 6: 2, 16, false, None, hex_but_b;
    lit_hex_4 8: 4, 16, false, None, hex_but_b;
    lit_hex_end_b 6: 2, 16, false, None, hex_b;
    lit_hex_2b 7: 2, 16, false, Some(b'b'), any;
    lit_hex_4w 9: 4, 16, false, Some(b'w'), any;
    lit_bin_8 12: 8, 2, false, None, any;
    lit_bin_8b 13: 8, 2, false, Some(b'b'), any;
    lit_oct_6 10: 6, 8, false, None, any;
    lit_oct_3b 8: 3, 8, false, Some(b'b'), any;
    lit_oct_6w 11: 6, 8, false, Some(b'w'), any;
}
