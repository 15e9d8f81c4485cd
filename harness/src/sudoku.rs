use crate::{sym, text};
use puzzle_utils::*;

const EMPTY: &[u8; 81] = b"000000000000000000000000000000000000000000000000000000000000000000000000000000000";
const EASY: &[u8; 81] = b"415830090003009104002150006900783000200000381500012400004900063380500040009307500";
const HARD1: &[u8; 81] = b"000030400900400300300000072009005000800010000700600529000100700601050008040000010";
const SOLVED: &[u8; 81] = b"415836297863279154792154836941783625276495381538612479154928763387561942629347518";
// Two minimal puzzles of seventeen clues
const SPARSE: &[u8; 81] = b"000000010400000000020000000000050407008000300001090000300400200050100000000806000";
const IMPOSSIBLE: &[u8; 81] = b"731000008000500042400009700020304000005000400000180006000708005090020100006090000";
// Two puzzles with a single solution that need thousands of guesses
const DEEP1: &[u8; 81] = b"600002000008100003001580000004000005080000000900007060000009320300000900000400001";
const DEEP2: &[u8; 81] = b"090100700000080060000004002030006000015000000700300500003700100000020080900000004";

fn base(i: u64) -> Vec<u8> {
    let b = match i {
        0 => EMPTY,
        1 => EASY,
        2 => HARD1,
        3 => SOLVED,
        4 => SPARSE,
        6 => DEEP1,
        7 => DEEP2,
        _ => IMPOSSIBLE,
    };
    b.iter().map(|c| c - b'0').collect()
}

/// All rows, columns and boxes of a grid hold the digits one to nine
fn valid(s: &[u8]) -> bool {
    let mut ok = true;
    let mut units = [0u32; 27];
    for i in 0..81 {
        let bit = 1u32 << (s[i] as u32 & 31);
        let (r, c) = (i / 9, i % 9);
        units[r] |= bit;
        units[9 + c] |= bit;
        units[18 + r / 3 * 3 + c / 3] |= bit;
    }
    for u in units {
        ok &= u == 0x3fe;
    }
    ok
}

fn share_unit(i: usize, j: usize) -> bool {
    let (r, c, q, d) = (i / 9, i % 9, j / 9, j % 9);
    r == q || c == d || (r / 3 == q / 3 && c / 3 == d / 3)
}

/// Clues that contradict each other or are no digits: there is certainly no solution
fn conflict(p: &[u8]) -> bool {
    let mut bad = false;
    for i in 0..81 {
        bad |= p[i] > 9;
        for j in 0..i {
            if share_unit(i, j) {
                bad |= (p[i] != 0) & (p[i] == p[j]);
            }
        }
    }
    bad
}

/// Suppose that a solution exists although none was reported
fn witness(p: &[u8], msg: &'static str) {
    let mut w = [0u8; 81];
    let mut ok = true;
    for i in 0..81 {
        if p[i] != 0 {
            w[i] = p[i];
        } else {
            w[i] = sym::int(4) as u8;
            ok &= (w[i] >= 1) & (w[i] <= 9);
        }
    }
    for i in 0..81 {
        for j in 0..i {
            if share_unit(i, j) {
                ok &= w[i] != w[j];
            }
        }
    }
    // Implied, but easier to refute: every unit holds every digit
    for u in 0..27 {
        for d in 1..10 {
            let mut any = false;
            for k in 0..9 {
                let i = match u / 9 {
                    0 => u * 9 + k,
                    1 => k * 9 + u - 9,
                    _ => (u - 18) / 3 * 27 + (u - 18) % 3 * 3 + k / 3 * 9 + k % 3,
                };
                any |= w[i] == d;
            }
            ok &= any;
        }
    }
    sym::assume(ok);
    sym::check(false, msg);
}

/// What is allocated once and for all is no leak
fn warm() -> u64 {
    if sym::wants(b"S03") {
        let _ = solve_sudoku(&base(3));
    }
    sym::live_heap()
}

/// `known` puzzles have a solution
fn judge(p: &[u8], known: bool) {
    let heap = warm();
    match solve_sudoku(p) {
        Ok(s) => {
            sym::cover("solved");
            sym::check(s.len() == 81, "S01 a solution has 81 cells");
            let mut kept = true;
            for i in 0..81 {
                kept &= (p[i] == 0) | (p[i] == s[i]);
            }
            sym::check(kept, "S01 a solution keeps every clue");
            sym::check(valid(&s), "S01 every row, column and box of a solution holds 1 to 9");
            sym::observe(1);
            for x in &s {
                sym::observe(*x as u64);
            }
        }
        Err(SudokuError::NoSolution) => {
            sym::cover("no solution");
            sym::observe(2);
            sym::check(sym::live_heap() == heap, "S03 solving leaks no memory");
            sym::check(!known, "S02 a puzzle with a solution is solved");
            if sym::wants(b"S02") && !conflict(p) {
                witness(p, "S02 a puzzle with a solution is solved");
            }
            return;
        }
        Err(_) => sym::check(false, "S03 81 cells never give a size or digit error"),
    }
    sym::check(sym::live_heap() == heap, "S03 solving leaks no memory");
}

/// A known puzzle in which one cell of lo..=hi holds any byte
#[no_mangle]
pub extern "C" fn h_sudoku_one() {
    let mut p = base(sym::param(0));
    let at = sym::split(sym::range(sym::param(1), sym::param(2))) as usize;
    let old = p.clone();
    p[at] = sym::byte();
    match sym::again() {
        0 => judge(&p, false),
        1 => {
            let _ = solve_sudoku(&old);
            judge(&p, false);
        }
        _ => {
            let _ = solve_sudoku(&p);
            judge(&old, false);
        }
    }
}

/// A known puzzle in which a cell of lo..=hi and a later cell hold any digits
#[no_mangle]
pub extern "C" fn h_sudoku_two() {
    let mut p = base(sym::param(0));
    let a = sym::split(sym::range(sym::param(1), sym::param(2))) as usize;
    let stride = sym::param(3) as usize;
    let d = sym::split(sym::range(1, 80)) as usize;
    if a + d > 80 || (a * 31 + d * 7) % stride != 0 {
        return;
    }
    let b = a + d;
    p[a] = sym::range(0, 9) as u8;
    p[b] = sym::range(0, 9) as u8;
    judge(&p, false);
}

/// Two equal clues in the same row, column or box of an otherwise blank (or known) puzzle
#[no_mangle]
pub extern "C" fn h_sudoku_conflict() {
    let mut p = base(sym::param(0));
    let a = sym::split(sym::range(sym::param(1), sym::param(2))) as usize;
    let d = sym::split(sym::range(1, 80)) as usize;
    let b = a + d;
    if b > 80 {
        return;
    }
    let same = a / 9 == b / 9 || a % 9 == b % 9 || (a / 27 == b / 27 && a % 9 / 3 == b % 9 / 3);
    if !same {
        return;
    }
    let v = sym::range(1, 9) as u8;
    p[a] = v;
    p[b] = v;
    judge(&p, false);
}

/// A band of cells of a solved grid is blanked out, except for `k` digits of any value in it
#[no_mangle]
pub extern "C" fn h_sudoku_band() {
    let mut p = base(sym::param(0));
    let (lo, hi, k) = (sym::param(1) as usize, sym::param(2) as usize, sym::param(3) as usize);
    for c in &mut p[lo..hi] {
        *c = 0;
    }
    for i in 0..k {
        p[lo + (i * 5) % (hi - lo)] = sym::range(0, 9) as u8;
    }
    judge(&p, false);
}

/// Any number from lo to hi of clues of a solved grid, in some order of the cells, and any digit in one more cell
#[no_mangle]
pub extern "C" fn h_sudoku_kept() {
    let full = base(3);
    let mut state = sym::param(0);
    let mut order: Vec<usize> = (0..81).collect();
    for i in 1..81 {
        order.swap(i, (sym::random(&mut state) % (i as u64 + 1)) as usize);
    }
    let n = sym::split(sym::range(sym::param(1), sym::param(2))) as usize;
    let mut p = vec![0; 81];
    for &i in &order[..n] {
        p[i] = full[i];
    }
    if n < 81 && sym::param(3) == 1 {
        p[order[n]] = sym::range(0, 9) as u8;
    }
    judge(&p, sym::param(3) == 0);
}

/// Wrong numbers of cells
#[no_mangle]
pub extern "C" fn h_sudoku_size() {
    let n = sym::split(sym::range(sym::param(0), sym::param(1))) as usize;
    if n == 81 {
        return;
    }
    let p: Vec<u8> = (0..n).map(|_| sym::byte()).collect();
    let heap = warm();
    match solve_sudoku(&p) {
        Err(SudokuError::InvalidSize(k)) => {
            sym::cover("size error");
            sym::check(k == n, "S03 a size error names the number of cells")
        }
        _ => sym::check(false, "S03 a wrong number of cells is a size error"),
    }
    match print_sudoku(&p) {
        Err(SudokuError::InvalidSize(k)) => {
            sym::check(k == n, "S05 a size error names the number of cells")
        }
        _ => sym::check(false, "S05 a wrong number of cells is a size error"),
    }
    sym::check(sym::live_heap() == heap, "S03 solving leaks no memory");
}

/// Any number of cells up to a large one
#[no_mangle]
pub extern "C" fn h_sudoku_length() {
    let max = sym::param(0);
    let n = sym::range(0, max) as usize;
    if n == 81 {
        return;
    }
    let cells = vec![0u8; max as usize];
    let p = &cells[..n];
    if sym::wants(b"S05") {
        match print_sudoku(p) {
            Err(SudokuError::InvalidSize(k)) => {
                sym::cover("size error");
                sym::check(k == n, "S05 a size error names the number of cells")
            }
            _ => sym::check(false, "S05 a wrong number of cells is a size error"),
        }
    } else {
        match solve_sudoku(p) {
            Err(SudokuError::InvalidSize(k)) => {
                sym::cover("size error");
                sym::check(k == n, "S03 a size error names the number of cells")
            }
            _ => sym::check(false, "S03 a wrong number of cells is a size error"),
        }
    }
}

/// Any number of digits
#[no_mangle]
pub extern "C" fn h_sudoku_parse_length() {
    let (lo, hi) = (sym::param(0), sym::param(1));
    let n = sym::range(lo, hi) as usize;
    let text: String = (0..hi).map(|i| (b'0' + (i * 7 % 10) as u8) as char).collect();
    match parse_sudoku(&text[..n]) {
        Ok(v) => {
            sym::cover("parsed");
            sym::check(n == 81 && v.len() == 81, "S04 only 81 digits are accepted")
        }
        Err(SudokuError::InvalidSize(k)) => {
            sym::cover("invalid size");
            sym::check(n != 81, "S04 a size error only for a wrong number of digits");
            sym::check(k == n, "S04 a size error names the number of characters")
        }
        Err(_) => sym::check(false, "S04 digits are no invalid characters"),
    }
}

pub fn any_char() -> char {
    let u = sym::int(21) as u32;
    sym::assume((u < 0xd800) | ((u > 0xdfff) & (u <= 0x10ffff)));
    unsafe { char::from_u32_unchecked(u) }
}

/// A text of `n` characters, `k` of which (at positions of their own choosing) are arbitrary
#[no_mangle]
pub extern "C" fn h_sudoku_parse() {
    let n = sym::param(0) as usize;
    let k = sym::param(1) as usize;
    let mut cs: Vec<char> = (0..n).map(|i| (b'0' + (i * 7 % 10) as u8) as char).collect();
    let mut from = 0;
    for _ in 0..k {
        if from >= n {
            break;
        }
        let at = sym::split(sym::range(from as u64, n as u64 - 1)) as usize;
        cs[at] = any_char();
        from = at + 1;
    }
    let mut s = String::with_capacity(4 * n);
    for c in &cs {
        s.push(*c);
    }
    let mut bad = None;
    for c in &cs {
        if !((*c >= '0') & (*c <= '9')) {
            bad = Some(*c);
            break;
        }
    }
    if sym::again() == 1 {
        let _ = parse_sudoku(&"1".repeat(n));
    }
    match parse_sudoku(&s) {
        Ok(v) => {
            sym::cover("parsed");
            sym::check(bad.is_none(), "S04 only digits are accepted");
            sym::check(n == 81 && v.len() == n, "S04 only 81 digits are accepted");
            let mut same = v.len() == n;
            if same {
                for i in 0..n {
                    same &= v[i] as u32 == cs[i] as u32 - '0' as u32;
                }
            }
            sym::check(same, "S04 each cell is the value of its digit");
            sym::observe(1);
        }
        Err(SudokuError::InvalidInteger(c)) => {
            sym::cover("invalid character");
            sym::check(bad == Some(c), "S04 the character reported is the first that is no digit");
            sym::observe(2);
            sym::observe(c as u64);
        }
        Err(SudokuError::InvalidSize(k)) => {
            sym::cover("invalid size");
            sym::check(bad.is_none() && n != 81, "S04 a size error only for a wrong number of digits");
            sym::check(k == n, "S04 a size error names the number of characters");
            sym::observe(3);
        }
        Err(_) => sym::check(false, "S04 parsing fails with a character or a size error"),
    }
}

/// Is (x, y) on the grid of a printed sudoku?
fn line(v: usize) -> bool {
    v % 100 == 0 || v == 299 || v == 301 || v == 599 || v == 601
}

/// A known puzzle in which `k` cells of lo..=hi hold any byte
#[no_mangle]
pub extern "C" fn h_sudoku_print() {
    let mut p = base(sym::param(0));
    let mut from = sym::param(1);
    let hi = sym::param(2);
    for _ in 0..sym::param(3) {
        if from > hi {
            break;
        }
        let at = sym::split(sym::range(from, hi));
        p[at as usize] = sym::byte();
        from = at + 1;
    }
    if sym::again() == 1 {
        let _ = print_sudoku(&base(sym::param(0)));
    }
    text::take();
    let Ok(image) = print_sudoku(&p) else {
        sym::check(false, "S05 81 cells are printed");
        return;
    };
    let log = text::take();
    let mut n = 0;
    for i in 0..81 {
        let v = p[i];
        if v == 0 {
            continue;
        }
        let (x, y) = ((i % 9 * 100) as i32, (i / 9 * 100) as i32);
        let mut found = 0;
        for t in &log {
            if t.x / 100 == x / 100 && t.y / 100 == y / 100 {
                found += 1;
                sym::check(t.rgb == 0, "S05 digits are black");
                sym::check((t.x >= x) & (t.y >= y), "S05 a digit lies within its cell");
                sym::check(t.scale == 100f32.to_bits(), "S05 digits are as high as their cell");
                if v <= 9 {
                    sym::check(
                        t.text.len() == 1 && t.text[0] == b'0' + v,
                        "S05 the text in a cell is its digit",
                    );
                }
            }
        }
        sym::check(found == 1, "S05 a clue is drawn once, in its own cell");
        n += 1;
    }
    sym::check(log.len() == n, "S05 nothing is drawn into empty cells");
    sym::cover("printed");
    sym::check(image.width() == 900 && image.height() == 900, "S05 the image is 900 by 900");
    if sym::param(4) == 0 {
        return;
    }
    let raw = image.as_raw();
    sym::check(raw.len() == 900 * 900 * 3, "S05 the image is 900 by 900");
    let mut ok = true;
    let mut at = 0;
    for y in 0..900 {
        let yl = line(y);
        for x in 0..900 {
            let want = if yl || line(x) { 0 } else { 255 };
            ok &= (raw[at] == want) & (raw[at + 1] == want) & (raw[at + 2] == want);
            at += 3;
        }
    }
    sym::check(ok, "S05 the grid lines are drawn, and nothing else");
}
