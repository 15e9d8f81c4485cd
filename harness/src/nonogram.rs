use crate::{sym, text};
use puzzle_utils::*;

const DIGIT_TEMPLATE: &[u8] = b"18446744073709551615";

/// Any text of exactly `n` bytes, the first of which are those of a template
#[no_mangle]
pub extern "C" fn h_nonogram_parse() {
    let n = sym::param(0) as usize;
    let template = sym::param(1);
    let mut bytes = Vec::with_capacity(64);
    if template == 1 {
        // A number of about twenty digits whose last ones are arbitrary
        bytes.extend_from_slice(&DIGIT_TEMPLATE[..20 - n]);
    } else if template == 2 {
        bytes.extend_from_slice(b"1,2;");
    }
    if template == 4 {
        // A long text of which one byte is arbitrary
        let per = sym::param(5) as usize;
        for i in 0..n {
            bytes.push(match i % 2 {
                0 => b'1' + (i / 2 % 9) as u8,
                _ if i / 2 % per == per - 1 => b';',
                _ => b',',
            });
        }
        let at = sym::split(sym::range(sym::param(3), sym::param(4))) as usize;
        bytes[at] = sym::byte();
        sym::assume(bytes[at] < 128);
    }
    let mut prev_multi = 0;
    for _ in 0..if template == 4 { 0 } else { n } {
        let b = sym::byte();
        if template == 3 {
            // Any character of two bytes
            if prev_multi == 0 {
                sym::assume((b >= 0xc2) & (b <= 0xdf) | (b < 128));
                if b >= 128 {
                    prev_multi = 1;
                }
            } else {
                sym::assume((b >= 0x80) & (b <= 0xbf));
                prev_multi = 0;
            }
        } else {
            sym::assume(b < 128);
        }
        bytes.push(b);
    }
    if prev_multi != 0 {
        return;
    }
    if template == 2 {
        bytes.extend_from_slice(b",3");
    }
    let bound = if sym::param(2) == 1 { sym::int(64) } else { sym::range(0, 40) } as usize;
    let text = unsafe { std::str::from_utf8_unchecked(&bytes) };
    if sym::again() == 1 {
        let _ = parse_nonogram_rules("1,2;3", bound);
        let _ = parse_nonogram_rules(&"1;".repeat(n), 40);
    }
    let got = parse_nonogram_rules(text, bound);

    // Our own reading: rules, or the first error
    let mut rules: Vec<Vec<u64>> = Vec::new();
    let mut cur: Vec<u64> = Vec::new();
    let mut size: u128 = 0;
    let mut err = 0; // 1: invalid number, 2: invalid size
    let mut bad = (0, 0);
    let mut start = 0;
    let mut i = 0;
    while i <= bytes.len() {
        let c = if i < bytes.len() { bytes[i] } else { b';' };
        if c == b',' || c == b';' {
            match number(&bytes[start..i]) {
                Some(v) => {
                    cur.push(v);
                    size += v as u128;
                }
                None => {
                    err = 1;
                    bad = (start, i);
                    break;
                }
            }
            start = i + 1;
            if c == b';' {
                if size + cur.len() as u128 - 1 > bound as u128 {
                    err = 2;
                    break;
                }
                rules.push(std::mem::take(&mut cur));
                size = 0;
            }
        }
        i += 1;
    }
    match got {
        Ok(v) => {
            sym::cover("parsed");
            sym::observe(1);
            sym::check(err != 1, "N01 only numbers are accepted");
            sym::check(err != 2, "N01 only rules that fit are accepted");
            if err == 0 {
                let mut same = v.len() == rules.len();
                if same {
                    for (a, b) in v.iter().zip(&rules) {
                        same &= a.len() == b.len();
                        if a.len() == b.len() {
                            for (x, y) in a.iter().zip(b) {
                                same &= *x as u64 == *y;
                            }
                        }
                    }
                }
                sym::check(same, "N01 the rules are the numbers between the separators");
            }
        }
        Err(NonogramError::InvalidRule(s)) => {
            sym::cover("invalid rule");
            sym::observe(2);
            sym::check(err == 1, "N01 an invalid rule is reported only for what is no number");
            if err == 1 {
                let want = &bytes[bad.0..bad.1];
                let mut same = s.len() == want.len();
                if same {
                    for (a, b) in s.as_bytes().iter().zip(want) {
                        same &= a == b;
                    }
                }
                sym::check(same, "N01 the first part that is no number is reported");
            }
        }
        Err(NonogramError::InvalidRuleDimension) => {
            sym::cover("rule too long");
            sym::observe(3);
            sym::check(err == 2, "N01 a size error is reported only for rules that do not fit");
        }
        Err(_) => sym::check(false, "N01 parsing fails with a rule or size error"),
    }
}

/// A decimal number that fits into 64 bits, possibly after a plus sign
fn number(b: &[u8]) -> Option<u64> {
    let d = if b.len() > 1 && b[0] == b'+' { &b[1..] } else { b };
    if d.is_empty() {
        return None;
    }
    let mut v: u128 = 0;
    for c in d {
        if !((*c >= b'0') & (*c <= b'9')) {
            return None;
        }
        v = v * 10 + (*c - b'0') as u128;
    }
    if v > u64::MAX as u128 {
        None
    } else {
        Some(v as u64)
    }
}

/// Any sequence of runs that fits into `n` squares, or is too long by at most `extra`
fn rule(n: usize, extra: usize, zeros: bool) -> Vec<usize> {
    let mut v = Vec::new();
    let mut used = 0;
    let k = sym::split(sym::range(0, ((n + 1) / 2) as u64));
    if k == 0 {
        // No runs, written either way
        if zeros && sym::boolean() {
            v.push(0);
        }
        return v;
    }
    for i in 0..k as usize {
        let rest = 2 * (k as usize - 1 - i);
        let gap = (i > 0) as usize;
        let max = (n + extra).saturating_sub(used + gap + rest);
        let lo = if zeros { 0 } else { 1 };
        if max < lo {
            sym::assume(false);
        }
        let x = sym::split(sym::range(lo as u64, max as u64)) as usize;
        used += x + gap;
        v.push(x);
    }
    v
}

/// Does a line of squares have exactly the runs of a rule?
fn follows(line: &[bool], rule: &[usize]) -> bool {
    let mut i = 0;
    let mut ok = true;
    for &r in rule {
        if r == 0 {
            continue;
        }
        while i < line.len() && !line[i] {
            i += 1;
        }
        let mut n = 0;
        while i < line.len() && line[i] {
            i += 1;
            n += 1;
        }
        ok &= n == r;
    }
    while i < line.len() {
        ok &= !line[i];
        i += 1;
    }
    ok
}

/// The same for symbolic squares: an automaton over all ways to place the runs, without branching
fn accepts(line: &[bool], rule: &[usize]) -> bool {
    // reach[k] = the squares so far can be the first k runs, ended by a blank (or the border)
    let runs: Vec<usize> = rule.iter().copied().filter(|r| *r > 0).collect();
    let n = line.len();
    // at[i][k]: squares before i hold exactly the first k runs, square i is not inside of a run
    let mut at = vec![vec![false; runs.len() + 1]; n + 2];
    at[0][0] = true;
    for i in 0..n {
        for k in 0..=runs.len() {
            let here = at[i][k];
            at[i + 1][k] |= here & !line[i];
            if k < runs.len() {
                let r = runs[k];
                if i + r <= n {
                    let mut fits = here;
                    for j in i..i + r {
                        fits &= line[j];
                    }
                    if i + r < n {
                        fits &= !line[i + r];
                        at[i + r + 1][k + 1] |= fits;
                    } else {
                        at[n][k + 1] |= fits;
                    }
                }
            }
        }
    }
    at[n][runs.len()]
}

/// `known` puzzles have a solution
fn judge(col: &[Vec<usize>], row: &[Vec<usize>], known: bool) {
    let (w, h) = (col.len(), row.len());
    match solve_nonogram(col, row) {
        Ok(g) => {
            sym::cover("solved");
            sym::observe(1);
            sym::check(g.len() == w * h, "N02 a solution has a square for each row and column");
            if g.len() != w * h {
                return;
            }
            for s in &g {
                sym::observe(*s as u64);
            }
            for y in 0..h {
                sym::check(follows(&g[y * w..(y + 1) * w], &row[y]), "N02 every row follows its rule");
            }
            for x in 0..w {
                let line: Vec<bool> = (0..h).map(|y| g[y * w + x]).collect();
                sym::check(follows(&line, &col[x]), "N02 every column follows its rule");
            }
        }
        Err(NonogramError::NoSolution) => {
            sym::cover("no solution");
            sym::observe(2);
            sym::check(!known, "N03 a puzzle with a solution is solved");
            if !sym::wants(b"N03") {
                return;
            }
            // Suppose that a solution exists anyway
            let g: Vec<bool> = (0..w * h).map(|_| sym::boolean()).collect();
            let mut ok = true;
            for y in 0..h {
                ok &= accepts(&g[y * w..(y + 1) * w], &row[y]);
            }
            for x in 0..w {
                let line: Vec<bool> = (0..h).map(|y| g[y * w + x]).collect();
                ok &= accepts(&line, &col[x]);
            }
            sym::assume(ok);
            sym::check(false, "N03 a puzzle with a solution is solved");
        }
        Err(_) => {
            sym::check(false, "N04 a puzzle with rows and columns is solved or has no solution");
        }
    }
}

/// Any rules for a puzzle of a size. The total of rows and columns agrees unless `free`
#[no_mangle]
pub extern "C" fn h_nonogram_solve() {
    let (w, h) = (sym::param(0) as usize, sym::param(1) as usize);
    let (extra, zeros, free) = (sym::param(2) as usize, sym::param(3) == 1, sym::param(4) == 1);
    let (part, parts) = (sym::param(5) as usize, sym::param(6) as usize);
    let mut key = 0;
    let mut totals = [0usize; 2];
    let mut rules = [Vec::new(), Vec::new()];
    for (side, (n, len)) in [(w, h), (h, w)].into_iter().enumerate() {
        for i in 0..n {
            let r = rule(len, extra, zeros);
            for x in &r {
                totals[side] += x;
                key = key * 5 + x + 1;
            }
            key = key * 3 + 1;
            rules[side].push(r);
            // Explore only this part of the puzzles
            if side == 0 && i + 1 == n && parts > 1 && key % parts != part {
                return;
            }
        }
    }
    if !free && totals[0] != totals[1] {
        return;
    }
    if sym::again() == 1 {
        // Any other rules for the last row, or rules for a filled puzzle
        let mut row = rules[1].clone();
        row[h - 1] = rule(w, extra, zeros);
        let _ = solve_nonogram(&rules[0], &row);
    } else if sym::again() == 3 {
        // Rules that resemble these
        let (mut col, mut row) = (rules[0].clone(), rules[1].clone());
        match sym::split(sym::range(0, 7)) {
            0 => col.rotate_left(1),
            1 => col.reverse(),
            2 => row.rotate_left(1),
            3 => row.reverse(),
            4 => std::mem::swap(&mut col, &mut row),
            5 => col.iter_mut().chain(row.iter_mut()).for_each(|rule| rule.reverse()),
            6 => {
                // The same runs, but one more square without any
                col.push(Vec::new());
                row.push(Vec::new());
            }
            _ => {
                col.pop();
            }
        }
        let _ = solve_nonogram(&col, &row);
    }
    judge(&rules[0], &rules[1], false);
}

/// The runs of a line of squares
fn runs(line: impl Iterator<Item = bool>) -> Vec<usize> {
    let mut v = Vec::new();
    let mut n = 0;
    for s in line {
        if s {
            n += 1;
        } else if n > 0 {
            v.push(n);
            n = 0;
        }
    }
    if n > 0 {
        v.push(n);
    }
    v
}

/// Puzzles of larger sizes: those of a fixed picture in which a square is inverted, or a run of a column and one
/// of a row have another length
#[no_mangle]
pub extern "C" fn h_nonogram_base() {
    let (w, h) = (sym::param(0) as usize, sym::param(1) as usize);
    let (lo, hi) = (sym::param(4), sym::param(5));
    let mut state = sym::param(3);
    let mut grid = Vec::with_capacity(w * h);
    for i in 0..w * h {
        let (x, y) = (i % w, i / w);
        state ^= state << 13;
        state ^= state >> 7;
        state ^= state << 17;
        grid.push(match sym::param(2) {
            0 => x % h == y % w,               // diagonals
            1 => (state >> 20) % 2 == 0,       // noise
            2 => (state >> 20) % 4 != 0,       // mostly filled
            3 => x % 7 != 3 && y % 6 != 4,     // rectangles
            _ => (x + y) % 2 == 0,             // a chessboard
        });
    }
    let old = grid.clone();
    if sym::param(6) == 0 {
        let at = sym::split(sym::range(lo, hi)) as usize;
        grid[at] = !grid[at];
    }
    let (old, grid) = if sym::again() == 2 { (grid, old) } else { (old, grid) };
    if sym::again() != 0 {
        let col: Vec<Vec<usize>> = (0..w).map(|x| runs((0..h).map(|y| old[y * w + x]))).collect();
        let row: Vec<Vec<usize>> = (0..h).map(|y| runs((0..w).map(|x| old[y * w + x]))).collect();
        let _ = solve_nonogram(&col, &row);
    }
    let mut col: Vec<Vec<usize>> = (0..w).map(|x| runs((0..h).map(|y| grid[y * w + x]))).collect();
    let mut row: Vec<Vec<usize>> = (0..h).map(|y| runs((0..w).map(|x| grid[y * w + x]))).collect();
    if sym::param(6) == 1 {
        // The lines from `lo` to `hi`, any of their runs, by one more or less, or any for a single change
        let mut change = |rules: &mut Vec<Vec<usize>>, n: usize| {
            let i = sym::split(sym::range(lo, hi.min(rules.len() as u64 - 1))) as usize;
            if rules[i].is_empty() {
                rules[i].push(sym::split(sym::range(0, n as u64)) as usize);
                return;
            }
            let k = sym::split(sym::range(0, rules[i].len() as u64 - 1)) as usize;
            rules[i][k] += sym::split(sym::range(0, 2)) as usize;
            rules[i][k] -= 1;
        };
        change(&mut col, h);
        change(&mut row, w);
    }
    judge(&col, &row, sym::param(6) == 0);
}

/// Huge runs, which must neither overflow nor allocate
#[no_mangle]
pub extern "C" fn h_nonogram_empty() {
    let (w, h) = (sym::split(sym::range(0, 3)) as usize, sym::split(sym::range(0, 3)) as usize);
    if w != 0 && h != 0 {
        return;
    }
    let rule = |_| {
        let n = sym::split(sym::range(0, 2)) as usize;
        (0..n).map(|_| sym::range(0, 3) as usize).collect::<Vec<_>>()
    };
    let col: Vec<Vec<usize>> = (0..w).map(rule).collect();
    let row: Vec<Vec<usize>> = (0..h).map(rule).collect();
    let r = solve_nonogram(&col, &row);
    sym::check(
        matches!(r, Err(NonogramError::EmptyPuzzle)),
        "N04 a puzzle without rows or columns is reported as empty",
    );
    sym::cover("empty");
}

/// Any runs, however long, in one rule of a puzzle
#[no_mangle]
pub extern "C" fn h_nonogram_huge() {
    let (w, h) = (sym::param(0) as usize, sym::param(1) as usize);
    let (mut col, mut row) = (vec![vec![1]; w], vec![vec![1]; h]);
    let of_row = sym::boolean();
    let (rules, len) = if of_row { (&mut row, w) } else { (&mut col, h) };
    let at = sym::split(sym::range(0, rules.len() as u64 - 1)) as usize;
    let mut long = false;
    rules[at] = (0..sym::param(2))
        .map(|_| {
            if sym::boolean() {
                sym::split(sym::range(0, len as u64)) as usize
            } else {
                long = true;
                sym::range(len as u64 + 1, u64::MAX) as usize
            }
        })
        .collect();
    match solve_nonogram(&col, &row) {
        Ok(_) => sym::check(!long, "N04 a run longer than its line has no solution"),
        Err(NonogramError::NoSolution) => sym::cover("no solution"),
        Err(_) => sym::check(false, "N04 a puzzle with rows and columns is solved or has no solution"),
    }
}

pub fn decimal(mut v: usize) -> Vec<u8> {
    let mut d = Vec::new();
    loop {
        d.push(b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            break;
        }
    }
    d.reverse();
    d
}

/// A puzzle with any rules of small numbers
#[no_mangle]
pub extern "C" fn h_nonogram_print() {
    let (w, h) = (sym::param(0) as usize, sym::param(1) as usize);
    let (max, len) = (sym::param(2), sym::param(3));
    let mut n = 0;
    let mut rule = || {
        n += 1;
        // Only the first few rules are arbitrary
        if n > sym::param(4) {
            // No more runs than there is room for
            let most = sym::param(6).clamp(3, (h as u64 * 10).max(150) / 30);
            return (0..1 + n % most).map(|i| (n + i * i) as usize % 4).collect();
        }
        let k = sym::split(sym::range(0, len)) as usize;
        (0..k).map(|_| sym::range(sym::param(7), max) as usize).collect::<Vec<_>>()
    };
    let col: Vec<Vec<usize>> = (0..w).map(|_| rule()).collect();
    let row: Vec<Vec<usize>> = (0..h).map(|_| rule()).collect();
    if sym::again() == 1 {
        let other = |n| vec![vec![1]; n];
        let _ = print_nonogram(h as u32, w as u32, &other(h), &other(w));
        let _ = print_nonogram(w as u32, h as u32, &other(w), &other(h));
    }
    text::take();
    let Ok(image) = print_nonogram(w as u32, h as u32, &col, &row) else {
        sym::check(false, "N06 a puzzle is printed with its own dimensions");
        return;
    };
    let log = text::take();
    let (rw, rh) = ((w * 10).max(150), (h * 10).max(150));
    let mut total = 0;
    for (x, rule) in col.iter().enumerate() {
        let left = (rw + x * 50) as i32;
        let mut last = -1;
        let mut k = 0;
        for t in &log {
            if t.x >= left && t.x < left + 50 && t.y < rh as i32 {
                if k < rule.len() {
                    let want = decimal(rule[k]);
                    let mut same = t.text.len() == want.len();
                    if same {
                        for (a, b) in t.text.iter().zip(&want) {
                            same &= a == b;
                        }
                    }
                    sym::check(same, "N06 the runs of a column are drawn above it in order");
                }
                sym::check(t.y > last && t.rgb == 0, "N06 the runs of a column are drawn below each other");
                last = t.y;
                k += 1;
                total += 1;
            }
        }
        sym::check(k == rule.len(), "N06 each run of a column is drawn above it once");
    }
    for (y, rule) in row.iter().enumerate() {
        let top = (rh + y * 50) as i32;
        let mut want = Vec::new();
        for (i, r) in rule.iter().enumerate() {
            if i > 0 {
                want.extend_from_slice(b"  ");
            }
            want.extend(decimal(*r));
        }
        let mut k = 0;
        for t in &log {
            if t.x < rw as i32 && t.y >= top && t.y < top + 50 {
                let mut same = t.text.len() == want.len();
                if same {
                    for (a, b) in t.text.iter().zip(&want) {
                        same &= a == b;
                    }
                }
                sym::check(same && t.rgb == 0, "N06 the runs of a row are drawn beside it in order");
                k += 1;
                total += 1;
            }
        }
        sym::check(k == 1 || (k == 0 && rule.is_empty()), "N06 the rule of a row is drawn beside it once");
    }
    sym::check(total == log.len(), "N06 nothing else is drawn");
    sym::cover("printed");
    let (iw, ih) = (w * 50 + rw, h * 50 + rh);
    sym::check(
        image.width() as usize == iw && image.height() as usize == ih,
        "N06 the image has fifty pixels for each square and room for the rules",
    );
    if sym::param(5) == 0 {
        return;
    }
    let raw = image.as_raw();
    let on = |v: usize, off: usize, n: usize| {
        if v + 1 < off {
            return false;
        }
        let d = v + 1 - off; // the distance to one pixel before the grid
        let (k, m) = (d / 50, d % 50);
        k < n && (m == 1 || (k % 5 == 0 && m < 3))
    };
    let mut ok = raw.len() == iw * ih * 3;
    let plain: Vec<u8> = (0..iw * 3).map(|i| if on(i / 3, rw, w) { 105 } else { 255 }).collect();
    let line = vec![105; iw * 3];
    if ok {
        for (y, pixels) in raw.chunks(iw * 3).enumerate() {
            ok &= pixels == if on(y, rh, h) { &line } else { &plain };
        }
    }
    sym::check(ok, "N06 the grid lines are drawn, every fifth one thicker");
}

/// Columns of as many runs as a column of that height can have
#[no_mangle]
pub extern "C" fn h_nonogram_print_tall() {
    let h = sym::param(0) as usize;
    let col = vec![vec![1; (h + 1) / 2]];
    let row: Vec<Vec<usize>> = (0..h).map(|y| vec![1; (y + 1) % 2]).collect();
    text::take();
    let Ok(_) = print_nonogram(1, h as u32, &col, &row) else {
        sym::check(false, "N06 a puzzle is printed with its own dimensions");
        return;
    };
    let above = text::take().iter().filter(|t| t.x >= 150 && t.y < (h as i32 * 10).max(150)).count();
    sym::check(above == col[0].len(), "N06 there is room above a column for all of its runs");
    sym::cover("printed");
}

/// Any dimensions, given a number of rules
#[no_mangle]
pub extern "C" fn h_nonogram_print_size() {
    let (w, h) = (sym::split(sym::range(0, 2)) as usize, sym::split(sym::range(0, 2)) as usize);
    let (dw, dh) = (sym::int(32) as u32, sym::int(32) as u32);
    let col = vec![vec![1]; w];
    let row = vec![vec![1]; h];
    match print_nonogram(dw, dh, &col, &row) {
        Ok(_) => {
            sym::cover("printed");
            sym::check(
                dw as usize == w && dh as usize == h,
                "N06 a puzzle is printed only with its own dimensions",
            )
        }
        Err(NonogramError::InvalidDimensions) => {
            sym::cover("rejected");
            sym::check(
                dw as usize != w || dh as usize != h,
                "N06 a puzzle is printed with its own dimensions",
            )
        }
        Err(_) => sym::check(false, "N06 printing fails with a dimension error only"),
    }
    text::take();
}

/// Any solution printed onto the picture of its puzzle
#[no_mangle]
pub extern "C" fn h_nonogram_fill() {
    let (w, h) = (sym::param(0) as usize, sym::param(1) as usize);
    let (rw, rh) = ((w * 10).max(150), (h * 10).max(150));
    let (iw, ih) = (w * 50 + rw, h * 50 + rh);
    let mut bytes = Vec::with_capacity(iw * ih * 3);
    for i in 0..iw * ih * 3 {
        bytes.push(1 + (i % 251) as u8);
    }
    if sym::param(4) > 0 {
        // Colours as in real pictures, and any in some pixels of the last square
        let mut state = sym::param(4);
        for pixel in bytes.chunks_mut(3) {
            let c = [[0; 3], [255; 3], [105; 3], [255, 0, 0], [0, 0, 1]][sym::random(&mut state) as usize % 5];
            pixel.copy_from_slice(&c);
        }
        let (left, top) = (iw - 50, ih - 50);
        for (x, y) in [(1, 1), (25, 25), (49, 49), (0, 20), (49, 1)] {
            for k in 0..3 {
                bytes[((top + y) * iw + left + x) * 3 + k] = sym::byte();
            }
        }
    }
    let Some(image) = RgbBuffer::from_raw(iw as u32, ih as u32, bytes.clone()) else { return };
    let first = sym::param(2) as usize;
    let grid: Vec<bool> = (0..w * h).map(|i| if i < first { i % 3 == 0 } else { sym::boolean() }).collect();
    if sym::again() == 1 {
        let (tw, th) = (h * 50 + (h * 10).max(150), w * 50 + (w * 10).max(150));
        let white = RgbBuffer::from_pixel(tw as u32, th as u32, image::Rgb([255; 3]));
        let _ = print_nonogram_solution(h as u32, w as u32, white, &grid);
        let white = RgbBuffer::from_pixel(iw as u32, ih as u32, image::Rgb([255; 3]));
        let _ = print_nonogram_solution(w as u32, h as u32, white, &(0..w * h).map(|i| i % 2 == 0).collect::<Vec<_>>());
    }
    sym::merge(sym::param(3) as u32);
    let r = print_nonogram_solution(w as u32, h as u32, image, &grid);
    sym::merge(0);
    let Ok(image) = r else {
        sym::check(false, "N07 a solution fits the picture of its puzzle");
        return;
    };
    sym::check(
        image.width() as usize == iw && image.height() as usize == ih,
        "N07 the picture keeps its size",
    );
    for (i, &filled) in grid.iter().enumerate() {
        if filled {
            let (left, top) = (rw + i % w * 50, rh + i / w * 50);
            for y in top + 1..top + 50 {
                bytes[(y * iw + left + 1) * 3..(y * iw + left + 50) * 3].fill(0);
            }
        }
    }
    let raw = image.as_raw();
    sym::check(raw.len() == bytes.len(), "N07 the picture keeps its size");
    if raw.len() != bytes.len() {
        return;
    }
    for (new, want) in raw.chunks(iw * 3).zip(bytes.chunks(iw * 3)) {
        sym::check(new == want, "N07 exactly the insides of filled squares turn black");
    }
    sym::cover("printed");
}

/// Any dimensions for a solution of `n` squares on a picture of a size
#[no_mangle]
pub extern "C" fn h_nonogram_fill_size() {
    let (iw, ih) = (sym::param(0), sym::param(1));
    let n = sym::split(sym::range(0, sym::param(2))) as usize;
    let (w, h) = (sym::int(32), sym::int(32));
    let image = RgbBuffer::from_pixel(iw as u32, ih as u32, image::Rgb([255, 255, 255]));
    let grid = vec![false; n];
    let fits = (w * h == n as u64)
        & (w * 50 + (w * 10).max(150) == iw)
        & (h * 50 + (h * 10).max(150) == ih);
    match print_nonogram_solution(w as u32, h as u32, image, &grid) {
        Ok(i) => {
            sym::cover("printed");
            sym::check(fits, "N07 a solution is printed only onto the picture of its puzzle");
            sym::check(
                i.width() as u64 == iw && i.height() as u64 == ih,
                "N07 the picture keeps its size",
            );
        }
        Err(NonogramError::InvalidDimensions) => {
            sym::cover("rejected");
            sym::check(!fits, "N07 a solution fits the picture of its puzzle")
        }
        Err(_) => sym::check(false, "N07 printing fails with a dimension error only"),
    }
}
