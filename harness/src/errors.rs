//! The messages of errors.
use crate::{nonogram::decimal, sudoku::any_char, sym};
use puzzle_utils::*;

/// The text of the message around what it names, found with a sample
fn around(message: String, sample: &str, msg: &'static str) -> (String, String) {
    match message.split_once(sample) {
        Some((a, b)) => {
            sym::check(!b.contains(sample), msg);
            (a.to_string(), b.to_string())
        }
        None => {
            sym::check(false, msg);
            Default::default()
        }
    }
}

fn same(message: &str, around: &(String, String), middle: &[u8]) -> bool {
    let (m, a, b) = (message.as_bytes(), around.0.as_bytes(), around.1.as_bytes());
    if m.len() != a.len() + middle.len() + b.len() {
        return false;
    }
    let mut ok = true;
    for (x, y) in m.iter().zip(a.iter().chain(middle).chain(b)) {
        ok &= x == y;
    }
    ok
}

/// Any character that is no digit
#[no_mangle]
pub extern "C" fn h_error_character() {
    const MSG: &str = "E01 the message names the character that is no digit";
    let expect = around(SudokuError::InvalidInteger('§').to_string(), "§", MSG);
    let c = any_char();
    sym::assume(!((c >= '0') & (c <= '9')));
    // At the start or the end of a text
    let mut text = String::new();
    if sym::param(0) == 1 {
        text.push_str("123");
    }
    text.push(c);
    let mut bytes = [0; 4];
    let bytes = c.encode_utf8(&mut bytes).as_bytes();
    match parse_sudoku(&text) {
        Err(e) => {
            let m = e.to_string();
            sym::check(same(&m, &expect, bytes), MSG);
            sym::observe(m.len() as u64);
            sym::cover("message");
        }
        Ok(_) => sym::check(false, "E01 what is no digit is an error"),
    }
}

/// Any number of cells, given directly or by an array or a text of that many
#[no_mangle]
pub extern "C" fn h_error_size() {
    const MSG: &str = "E01 the message names the number of cells";
    let expect = around(SudokuError::InvalidSize(70707).to_string(), "70707", MSG);
    let (lo, hi) = (sym::param(1), sym::param(2));
    let n = sym::range(lo, hi) as usize;
    let n = if sym::param(0) == 0 { n } else { sym::split(n as u64) as usize };
    if n == 81 {
        return;
    }
    let e = match sym::param(0) {
        0 => Some(SudokuError::InvalidSize(n)),
        1 => parse_sudoku(&"1".repeat(n)).err(),
        2 => solve_sudoku(&vec![0; n]).err(),
        _ => print_sudoku(&vec![0; n]).err(),
    };
    let Some(e) = e else {
        sym::check(false, "E01 a wrong number of cells is an error");
        return;
    };
    let m = e.to_string();
    sym::check(same(&m, &expect, &decimal(n)), MSG);
    sym::observe(m.len() as u64);
    sym::cover("message");
}

/// Parts of rules that are no numbers: any `n` characters of up to one or four bytes after a fixed part
#[no_mangle]
pub extern "C" fn h_error_rule() {
    const MSG: &str = "E01 the message names the part of a rule that is no number";
    let expect = around(NonogramError::InvalidRule("§".into()).to_string(), "§", MSG);
    let (before, n, wide) = (sym::param(0) as usize, sym::param(1), sym::param(2) == 1);
    let mut part: String = (0..before).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    for _ in 0..n {
        if wide {
            let c = any_char();
            sym::assume((c != ',') & (c != ';'));
            part.push(c);
        } else {
            let b = sym::byte();
            sym::assume((b < 128) & (b != b',') & (b != b';'));
            part.push(b as char);
        }
    }
    part.push('z');
    let e = if sym::param(3) == 0 {
        NonogramError::InvalidRule(part.as_str().into())
    } else {
        match parse_nonogram_rules(&format!("1,2;{part},3"), 9) {
            Err(e) => e,
            Ok(_) => {
                sym::check(false, "E01 what is no number is an error");
                return;
            }
        }
    };
    let m = e.to_string();
    sym::check(same(&m, &expect, part.as_bytes()), MSG);
    sym::observe(m.len() as u64);
    sym::cover("message");
}

/// Each error has a message of its own
#[no_mangle]
pub extern "C" fn h_error_kinds() {
    let kinds = [
        vec![
            SudokuError::InvalidInteger('x').to_string(),
            SudokuError::InvalidSize(7).to_string(),
            SudokuError::NoSolution.to_string(),
        ],
        vec![MazeError::InvalidDimensions.to_string(), MazeError::InvalidSolution.to_string()],
        vec![
            NonogramError::EmptyPuzzle.to_string(),
            NonogramError::InvalidRule("x".into()).to_string(),
            NonogramError::InvalidRuleDimension.to_string(),
            NonogramError::NoSolution.to_string(),
            NonogramError::InvalidDimensions.to_string(),
        ],
    ];
    let k = sym::split(sym::range(0, 2)) as usize;
    let i = sym::split(sym::range(0, kinds[k].len() as u64 - 1)) as usize;
    sym::check(!kinds[k][i].is_empty(), "E01 every error has a message");
    for (j, m) in kinds[k].iter().enumerate() {
        sym::check(i == j || *m != kinds[k][i], "E01 every kind of error has a message of its own");
    }
    sym::cover("kinds");
}
