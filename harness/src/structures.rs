use crate::sym;
use puzzle_utils::verif::*;

struct Cover {
    rows: usize,
    cols: usize,
    cells: [[bool; 8]; 8],
}
impl Cover {
    /// Which columns a row covers
    fn row(&self, r: usize) -> u32 {
        let mut m = 0;
        for c in 0..self.cols {
            m |= (self.cells[r][c] as u32) << c;
        }
        m
    }
}

/// Any exact cover problem of the given size; the first bits are those of the fourth parameter
fn problem() -> Cover {
    let (rows, cols) = (sym::param(0) as usize, sym::param(1) as usize);
    let (fixed, bits) = (sym::param(2), sym::param(3));
    let mut cells = [[false; 8]; 8];
    let mut n = 0;
    for r in 0..rows {
        for c in 0..cols {
            cells[r][c] = if n < fixed { bits >> n & 1 == 1 } else { sym::boolean() };
            n += 1;
        }
    }
    Cover { rows, cols, cells }
}

fn matrix(p: &Cover, reverse: bool) -> DancingMatrix {
    let mut constraints = Vec::new();
    for c in 0..p.cols {
        let mut v = Vec::new();
        for i in 0..p.rows {
            let r = if reverse { p.rows - 1 - i } else { i };
            if p.cells[r][c] {
                v.push(r);
            }
        }
        constraints.push(v);
    }
    DancingMatrix::new(constraints.iter().map(|c| c.iter()))
}

fn judge(p: &Cover, chosen: u32, result: Result<Vec<usize>, DancingLinksError>) {
    let all = (1u32 << p.cols) - 1;
    match result {
        Ok(v) => {
            sym::cover("solved");
            let (mut rows, mut once, mut ok) = (0u32, 0u32, true);
            for &r in &v {
                sym::observe(r as u64);
                ok &= r < p.rows;
                if r < p.rows {
                    ok &= rows >> r & 1 == 0;
                    rows |= 1 << r;
                    let m = p.row(r);
                    ok &= once & m == 0;
                    once |= m;
                }
            }
            sym::check(ok, "X01 the rows of a solution are disjoint");
            sym::check(once == all, "X01 a solution covers every column");
            sym::check(rows & chosen == chosen, "X01 a solution contains the rows chosen before");
        }
        Err(DancingLinksError::NoSolution) => {
            sym::cover("no solution");
            sym::observe(99);
            if !sym::wants(b"X01") {
                return;
            }
            let w = sym::int(p.rows as u32) as u32;
            let (mut once, mut ok) = (0u32, w & chosen == chosen);
            for r in 0..p.rows {
                let m = p.row(r) & (w >> r & 1).wrapping_neg();
                ok &= once & m == 0;
                once |= m;
            }
            sym::assume(ok & (once == all));
            sym::check(false, "X01 a solution is found whenever there is one");
        }
        Err(_) => sym::check(false, "X01 solving fails with the no solution error only"),
    }
}

/// Any exact cover problem
#[no_mangle]
pub extern "C" fn h_cover_solve() {
    // What is allocated once and for all is no leak
    let _ = DancingMatrix::new([[0usize].iter()].into_iter()).solve();
    if sym::again() == 1 {
        // Another problem of that size
        let mut other = Cover { rows: sym::param(0) as usize, cols: sym::param(1) as usize, cells: [[false; 8]; 8] };
        for i in 0..other.rows.min(other.cols) {
            other.cells[i][i] = true;
        }
        other.cells[0][0] = sym::boolean();
        let _ = matrix(&other, false).solve();
    }
    let heap = sym::live_heap();
    let p = problem();
    let m = matrix(&p, sym::param(4) == 1);
    let r = m.solve();
    sym::check(
        sym::live_heap() == heap + matches!(&r, Ok(v) if v.capacity() > 0) as u64,
        "X02 solving frees every node",
    );
    judge(&p, 0, r);
}

/// Any exact cover problem with up to `k` rows chosen in advance, solved or dropped
#[no_mangle]
pub extern "C" fn h_cover_add() {
    // What is allocated once and for all is no leak
    let _ = DancingMatrix::new([[0usize].iter()].into_iter()).solve();
    let heap = sym::live_heap();
    let p = problem();
    let mut m = matrix(&p, false);
    let (mut chosen, mut used, mut top) = (0u32, 0u32, 0);
    for r in 0..p.rows {
        if p.row(r) != 0 {
            top = r + 1;
        }
    }
    for _ in 0..sym::param(4) {
        let r = sym::split(sym::range(0, p.rows as u64)) as usize;
        let res = m.add_solution(r);
        if r >= top {
            sym::check(res.is_err(), "X01 a row out of range is rejected");
            continue;
        }
        let mask = p.row(r);
        if mask != 0 && mask & used == 0 {
            sym::cover("accepted");
            sym::check(res.is_ok(), "X01 a row disjoint from the chosen ones is accepted");
            chosen |= 1 << r;
            used |= mask;
        } else {
            sym::cover("rejected");
            sym::check(
                matches!(res, Err(DancingLinksError::InvalidRow)),
                "X01 an empty or overlapping row is rejected",
            );
        }
    }
    if sym::param(5) == 1 {
        drop(m);
        sym::check(sym::live_heap() == heap, "X02 dropping frees every node");
        return;
    }
    let r = m.solve();
    sym::check(
        sym::live_heap() == heap + matches!(&r, Ok(v) if v.capacity() > 0) as u64,
        "X02 solving frees every node",
    );
    judge(&p, chosen, r);
}

/// Larger exact cover problems: a fixed one (with a solution) of which some cells hold any value
#[no_mangle]
pub extern "C" fn h_cover_large() {
    let _ = DancingMatrix::new([[0usize].iter()].into_iter()).solve();
    let (rows, cols) = (sym::param(0) as usize, sym::param(1) as usize);
    let mut state = sym::param(2);
    let mut cells = vec![false; rows * cols];
    // A third of the rows is a partition of the columns
    for c in 0..cols {
        cells[(sym::random(&mut state) as usize % (rows / 3 + 1) * 3 % rows) * cols + c] = true;
    }
    for r in 0..rows {
        if r % 3 != 0 {
            for c in 0..cols {
                cells[r * cols + c] = sym::random(&mut state) % sym::param(3) == 0;
            }
        }
    }
    let (lo, n) = (sym::param(4) as usize, sym::param(5) as usize);
    for i in 0..n {
        // Spread over the whole problem
        let at = (lo + i * 37) % (rows * cols);
        cells[at] = sym::split(sym::int(1)) != 0;
    }
    let masks: Vec<u64> = cells.chunks(cols).map(|r| r.iter().enumerate().map(|(c, &b)| (b as u64) << c).sum()).collect();
    let columns: Vec<Vec<usize>> = (0..cols).map(|c| (0..rows).filter(|r| cells[r * cols + c]).collect()).collect();
    let heap = sym::live_heap();
    let mut m = DancingMatrix::new(columns.iter().map(|c| c.iter()));
    let top = masks.iter().rposition(|&m| m != 0).map_or(0, |r| r + 1);
    let (mut chosen, mut used) = (0u64, 0u64);
    for _ in 0..sym::param(6) {
        let r = sym::split(sym::range(0, rows as u64)) as usize;
        let res = m.add_solution(r);
        if r < top && masks[r] != 0 && masks[r] & used == 0 {
            sym::cover("accepted");
            sym::check(res.is_ok(), "X01 a row disjoint from the chosen ones is accepted");
            chosen |= 1 << r;
            used |= masks[r];
        } else {
            sym::cover("rejected");
            sym::check(res.is_err(), "X01 an empty, overlapping or absent row is rejected");
        }
    }
    let result = m.solve();
    sym::check(
        sym::live_heap() == heap + matches!(&result, Ok(v) if v.capacity() > 0) as u64,
        "X02 solving frees every node",
    );
    let all = if cols == 64 { !0 } else { (1 << cols) - 1 };
    match result {
        Ok(v) => {
            sym::cover("solved");
            let (mut set, mut once, mut ok) = (0u64, 0u64, true);
            for &r in &v {
                sym::observe(r as u64);
                ok &= r < rows && set >> r & 1 == 0 && once & masks[r] == 0;
                if r < rows {
                    set |= 1 << r;
                    once |= masks[r];
                }
            }
            sym::check(ok, "X01 the rows of a solution are disjoint");
            sym::check(once == all, "X01 a solution covers every column");
            sym::check(set & chosen == chosen, "X01 a solution contains the rows chosen before");
        }
        Err(DancingLinksError::NoSolution) => {
            sym::cover("no solution");
            sym::observe(99);
            if !sym::wants(b"X01") {
                return;
            }
            let w = sym::int(rows as u32);
            let (mut once, mut ok) = (0u64, w & chosen == chosen);
            for r in 0..rows {
                let m = masks[r] & (w >> r & 1).wrapping_neg();
                ok &= once & m == 0;
                once |= m;
            }
            sym::assume(ok & (once == all));
            sym::check(false, "X01 a solution is found whenever there is one");
        }
        Err(_) => sym::check(false, "X01 solving fails with the no solution error only"),
    }
}

/// Many columns, each in a row of its own and in one for it and its neighbour, with any numbers of rows in between;
/// some of the former rows may be missing and one row of any index may be chosen beforehand
#[no_mangle]
pub extern "C" fn h_cover_sparse() {
    let _ = DancingMatrix::new([[0usize].iter()].into_iter()).solve();
    let (n, stride, free) = (sym::param(0) as usize, sym::param(1) as usize, sym::param(2) as usize);
    let mut own = vec![true; n];
    for i in 0..free {
        own[(i * 37 + 1) % n] = sym::split(sym::int(1)) != 0;
    }
    let columns: Vec<Vec<usize>> = (0..n)
        .map(|c| if own[c] { vec![c * stride, (n + c / 2) * stride] } else { vec![(n + c / 2) * stride] })
        .collect();
    let heap = sym::live_heap();
    let mut m = DancingMatrix::new(columns.iter().map(|c| c.iter()));
    let top = (n + (n - 1) / 2) * stride;
    let mut solvable = true;
    let mut chosen = None;
    let at = [0, 1, n / 2, n - 1, n, n + n / 4, n + (n - 1) / 2, n + (n - 1) / 2 + 1];
    let pick = sym::split(sym::range(0, 3 * at.len() as u64)) as usize;
    if pick > 0 {
        // Also rows next to those that are there
        let k = at[(pick - 1) / 3];
        let r = (k * stride + (pick - 1) % 3).saturating_sub(1);
        let there = r % stride == 0 && r <= top && (r / stride >= n || own[r / stride]);
        let res = m.add_solution(r);
        sym::check(res.is_ok() == there, "X01 exactly the rows which are there are accepted");
        if there {
            sym::cover("accepted");
            chosen = Some(r);
            let c = r / stride;
            // Its neighbour is left to the row of its own
            solvable = c >= n || c ^ 1 >= n || own[c ^ 1];
        } else {
            sym::cover("rejected");
        }
    }
    let result = m.solve();
    sym::check(
        sym::live_heap() == heap + matches!(&result, Ok(v) if v.capacity() > 0) as u64,
        "X02 solving frees every node",
    );
    match result {
        Ok(v) => {
            sym::cover("solved");
            let mut times = vec![0; n];
            let (mut ok, mut kept) = (true, chosen.is_none());
            for &r in &v {
                sym::observe(r as u64);
                kept |= chosen == Some(r);
                let c = r / stride;
                ok &= r % stride == 0 && r <= top;
                if !ok {
                    break;
                }
                if c < n {
                    ok &= own[c];
                    times[c] += 1;
                } else {
                    times[(c - n) * 2] += 1;
                    if (c - n) * 2 + 1 < n {
                        times[(c - n) * 2 + 1] += 1;
                    }
                }
            }
            sym::check(ok && times.iter().all(|&t| t == 1), "X01 a solution covers every column once");
            sym::check(kept, "X01 a solution contains the rows chosen before");
        }
        Err(DancingLinksError::NoSolution) => {
            sym::cover("no solution");
            sym::observe(99);
            sym::check(!solvable, "X01 a solution is found whenever there is one");
        }
        Err(_) => sym::check(false, "X01 solving fails with the no solution error only"),
    }
}

/// Larger sets: a fixed history of one of several shapes, followed by any unions and queries of some elements
#[no_mangle]
pub extern "C" fn h_set_large() {
    let (n, shape, ops) = (sym::param(0) as usize, sym::param(1), sym::param(2));
    let (step, count) = (sym::param(3), sym::param(4));
    let mut set = DisjointSet::with_size(n / 2);
    for _ in n / 2..n {
        set.add();
    }
    let mut label: Vec<usize> = (0..n).collect();
    let unite = |set: &mut DisjointSet, label: &mut Vec<usize>, a: usize, b: usize| {
        sym::check(set.union(a, b).is_some(), "D01 a union of elements in range succeeds");
        let (x, y) = (label[a], label[b]);
        for l in label.iter_mut() {
            if *l == y {
                *l = x;
            }
        }
    };
    let mut state = 88172645463325252;
    match shape {
        // A chain in either direction
        0 | 1 => {
            for i in 0..n - 1 {
                let (a, b) = if shape == 0 { (i, i + 1) } else { (n - 1 - i, n - 2 - i) };
                sym::check(set.union(a, b).is_some(), "D01 a union of elements in range succeeds");
            }
            label.fill(0);
        }
        2 => (0..n / 2).for_each(|_| {
            let (a, b) = (sym::random(&mut state) as usize % n, sym::random(&mut state) as usize % n);
            unite(&mut set, &mut label, a, b)
        }),
        _ => {
            let mut d = 1;
            while d < n {
                for a in (0..n).step_by(2 * d) {
                    // Two sets remain
                    if a + d < n && d * 2 < n {
                        unite(&mut set, &mut label, a, a + d);
                    }
                }
                d *= 2;
            }
        }
    }
    // Elements counted from the end, or one that does not exist
    let pick = || n.wrapping_sub((sym::split(sym::range(0, count)) * step) as usize);
    for _ in 0..ops {
        let (a, b) = (pick(), pick());
        if a < n && b < n {
            unite(&mut set, &mut label, a, b);
        } else {
            sym::check(set.union(a, b).is_none(), "D01 a union with an element out of range is rejected");
        }
    }
    let (a, b) = (pick(), pick());
    if a >= n || b >= n {
        sym::check(set.common_set(a, b).is_none(), "D01 elements out of range cannot be compared");
        return;
    }
    let same = label[a] == label[b];
    sym::cover(if same { "connected" } else { "disconnected" });
    sym::check(set.common_set(a, b) == Some(same), "D01 two elements share a set iff unions connect them");
    let (Some(x), Some(y)) = (set.find(a), set.find(b)) else {
        sym::check(false, "D01 an element in range has a representative");
        return;
    };
    sym::check((x == y) == same, "D01 representatives agree iff unions connect the elements");
    sym::check(x < n && label[x] == label[a], "D01 a representative is in the set");
    sym::check(set.find(x) == Some(x), "D01 a representative represents itself");
}

/// Any `m` unions of `n` elements, followed by any queries
#[no_mangle]
pub extern "C" fn h_set() {
    let (n, ops, grow) = (sym::param(0) as usize, sym::param(1), sym::param(2) as usize);
    sym::merge(sym::param(3) as u32);
    let mut set = DisjointSet::with_size(n - grow);
    for _ in 0..grow {
        set.add();
    }
    let mut label = [0u8; 16];
    for i in 0..n {
        label[i] = i as u8;
    }
    let get = |label: &[u8; 16], i: usize| {
        let mut v = 0;
        for k in 0..n {
            v = if k == i { label[k] } else { v };
        }
        v
    };
    if sym::param(4) == 1 {
        // Deep trees: sets of equal sizes are united again and again
        let mut d = 1;
        while d * 2 < n {
            for a in (0..n).step_by(2 * d) {
                if a + d < n {
                    set.union(a, a + d);
                    for k in a..n.min(a + 2 * d) {
                        label[k] = a as u8;
                    }
                }
            }
            d *= 2;
        }
    }
    for _ in 0..ops {
        let (a, b) = (sym::range(0, n as u64) as usize, sym::range(0, n as u64) as usize);
        let r = set.union(a, b);
        if a >= n || b >= n {
            sym::check(r.is_none(), "D01 a union with an element out of range is rejected");
            continue;
        }
        sym::check(r.is_some(), "D01 a union of elements in range succeeds");
        let (x, y) = (get(&label, a), get(&label, b));
        for k in 0..n {
            label[k] = if label[k] == y { x } else { label[k] };
        }
    }
    let (a, b) = (sym::range(0, n as u64) as usize, sym::range(0, n as u64) as usize);
    let inside = a < n && b < n;
    let same = inside && get(&label, a) == get(&label, b);
    match set.common_set(a, b) {
        None => sym::check(!inside, "D01 elements in range can be compared"),
        Some(v) => {
            sym::cover(if v { "connected" } else { "disconnected" });
            sym::check(inside, "D01 elements out of range cannot be compared");
            sym::check(v == same, "D01 two elements share a set iff unions connect them");
        }
    }
    if inside {
        let (x, y) = (set.find(a), set.find(b));
        sym::check(x.is_some() && y.is_some(), "D01 an element in range has a representative");
        sym::check((x == y) == same, "D01 representatives agree iff unions connect the elements");
        let x = x.unwrap();
        sym::check(x < n, "D01 a representative is an element");
        if x < n {
            sym::check(get(&label, x) == get(&label, a), "D01 a representative is in the set");
            sym::check(set.find(x) == Some(x), "D01 a representative represents itself");
        }
    }
}

/// Any `m` operations (unions, queries, additions) on a set of `n` elements at first, followed by any queries
#[no_mangle]
pub extern "C" fn h_set_any() {
    let (first, ops) = (sym::param(0) as usize, sym::param(1));
    if sym::again() == 1 {
        let mut other = DisjointSet::with_size(first);
        let _ = other.union(0, first - 1);
    }
    let mut set = if sym::param(2) == 1 { DisjointSet::new() } else { DisjointSet::with_size(first) };
    if sym::param(2) == 1 {
        for _ in 0..first {
            set.add();
        }
    }
    let mut label: Vec<usize> = (0..first).collect();
    for i in 0..=ops {
        let n = label.len();
        // The last operation is a query
        let kind = if i < ops { sym::split(sym::range(0, 3)) } else { 2 };
        if kind == 3 {
            set.add();
            label.push(n);
            continue;
        }
        let a = sym::split(sym::range(0, n as u64)) as usize;
        if kind == 0 || a == n {
            let r = set.find(a);
            sym::check(r.is_some() == (a < n), "D01 an element in range has a representative");
            if let Some(r) = r {
                sym::check(r < n && label[r] == label[a], "D01 a representative is in the set");
                sym::check(set.find(r) == Some(r), "D01 a representative represents itself");
                for b in 0..n {
                    sym::check(
                        (set.find(b) == Some(r)) == (label[b] == label[a]),
                        "D01 representatives agree iff unions connect the elements",
                    );
                }
            }
            continue;
        }
        let b = sym::split(sym::range(0, n as u64)) as usize;
        let inside = b < n;
        if kind == 1 {
            let r = set.union(a, b);
            sym::check(r.is_some() == inside, "D01 a union of elements in range succeeds, and no other");
            if inside {
                let (x, y) = (label[a], label[b]);
                for l in &mut label {
                    if *l == y {
                        *l = x;
                    }
                }
            }
        } else {
            let r = set.common_set(a, b);
            sym::check(r.is_some() == inside, "D01 elements in range can be compared, and no others");
            if let Some(r) = r {
                sym::cover(if r { "connected" } else { "disconnected" });
                sym::check(r == (label[a] == label[b]), "D01 two elements share a set iff unions connect them");
            }
        }
    }
}

/// Choosing from any vector of `n` values
#[no_mangle]
pub extern "C" fn h_choose() {
    let n = sym::param(0) as usize;
    let mut v: Vec<u8> = (0..n).map(|_| sym::byte()).collect();
    if sym::again() == 1 {
        v.push(7);
        let _ = choose_random(&mut v);
        sym::check(v.len() == n, "U01 exactly one element is removed");
    }
    let old = v.clone();
    let c = choose_random(&mut v);
    if n == 0 {
        sym::check(c.is_none(), "U01 nothing can be chosen from nothing");
        return;
    }
    sym::check(c.is_some(), "U01 something is chosen");
    sym::check(v.len() == n - 1, "U01 exactly one element is removed");
    let c = c.unwrap_or(0);
    // The multiset is unchanged: any value occurs as often as before
    let q = sym::byte();
    let (mut before, mut after) = (0u32, (c == q) as u32);
    for x in &old {
        before += (*x == q) as u32;
    }
    for x in &v {
        after += (*x == q) as u32;
    }
    sym::check(before == after, "U01 the chosen element is removed and all others kept");
    // Every position can be chosen
    for i in 0..n {
        let mut unique = true;
        for j in 0..n {
            if j != i {
                unique &= old[i] != old[j];
            }
        }
        if unique && c == old[i] {
            sym::cover(["chose 0", "chose 1", "chose 2", "chose 3", "chose 4", "chose 5"][i.min(5)]);
        }
    }
}

/// Choosing from a longer vector of `n` distinct values
#[no_mangle]
pub extern "C" fn h_choose_large() {
    let n = sym::param(0) as usize;
    let mut v: Vec<usize> = (0..n).collect();
    if sym::again() == 1 {
        let _ = choose_random(&mut v.clone());
    }
    let c = choose_random(&mut v);
    sym::check(c.is_some(), "U01 something is chosen");
    sym::check(v.len() == n - 1, "U01 exactly one element is removed");
    let Some(c) = c else { return };
    let c = sym::split(c as u64) as usize;
    let mut left = vec![false; n];
    let mut ok = c < n;
    for x in &v {
        ok &= *x < n && !left[*x];
        if *x < n {
            left[*x] = true;
        }
    }
    sym::check(ok && !left[c], "U01 the chosen element is removed and all others kept");
    if ok {
        sym::cover_owned(&format!("chose {c} of {n}"));
    }
}
