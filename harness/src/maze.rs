use crate::nodes::{node, walls, Tape};
use crate::{rng, sym};
use puzzle_utils::*;
use serde::de::value::{BoolDeserializer, BytesDeserializer, Error, MapDeserializer, SeqDeserializer, StrDeserializer, U32Deserializer, UnitDeserializer};
use serde::de::{DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, VariantAccess, Visitor};
use serde::{Deserialize, Serialize};

/// The open steps of a grid: bit c of right (down) tells that c is not walled off from c + 1 (c + w)
struct Walls {
    right: u64,
    down: u64,
}
fn read(grid: &[MazeNode]) -> Walls {
    let mut w = Walls { right: 0, down: 0 };
    for (i, n) in grid.iter().enumerate() {
        let (r, d) = walls(n);
        w.right |= (!r as u64) << i;
        w.down |= (!d as u64) << i;
    }
    w
}
/// Which cells have a right (lower) neighbour
fn inner(w: usize, h: usize) -> (u64, u64) {
    let (mut r, mut d) = (0, 0);
    for i in 0..w * h {
        if i % w + 1 < w {
            r |= 1u64 << i;
        }
        if i / w + 1 < h {
            d |= 1u64 << i;
        }
    }
    (r, d)
}
fn step(o: &Walls, w: usize, inn: (u64, u64), set: u64) -> u64 {
    let (r, d) = (o.right & inn.0, o.down & inn.1);
    (set & r) << 1 | (set >> 1) & r | (set & d) << w | (set >> w) & d
}
fn ones(mut v: u64, n: usize) -> u64 {
    let mut c = 0;
    for _ in 0..n {
        c += v & 1;
        v >>= 1;
    }
    c
}

/// All mazes of a size, whatever the random choices are
#[no_mangle]
pub extern "C" fn h_maze() {
    let (w, h) = (sym::param(0) as usize, sym::param(1) as usize);
    if sym::again() == 1 {
        // One maze before
        rng::fix(12345, 0, 1);
        let _ = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
        let _ = create_maze(h, w + 1, MazeAlgorithm::RecursiveBacktrack);
        rng::release();
    }
    sym::merge(sym::param(2) as u32);
    let (grid, solution) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
    judge(w, h, &grid, &solution);
    if sym::param(3) == 1 {
        pipeline(w, h, &grid, &solution);
    }
}

fn judge(w: usize, h: usize, grid: &[MazeNode], solution: &[MazeDirection]) {
    let n = w * h;
    let all = if n == 64 { !0 } else { (1u64 << n) - 1 };
    sym::check(grid.len() == n, "M01 a maze has a node per cell");
    if grid.len() != n {
        return;
    }
    let o = read(grid);
    sym::observe(o.right);
    sym::observe(o.down);
    let inn = inner(w, h);
    // A spanning tree: connected with one step less than cells
    sym::check(
        ones(o.right & inn.0, n) + ones(o.down & inn.1, n) == n as u64 - 1,
        "M01 a maze has no cycles: one open wall less than cells",
    );
    let mut dist = [0u8; 64];
    let mut seen = 1u64;
    for k in 1..n {
        let next = (seen | step(&o, w, inn, seen)) & all;
        for c in 0..n {
            let new = (next & !seen) >> c & 1;
            dist[c] |= (new as u8).wrapping_mul(k as u8);
        }
        seen = next;
    }
    sym::check(seen == all, "M01 every cell can be reached from every other");
    // The outer walls
    sym::check(o.right & !inn.0 == 0, "M03 the right outer wall is intact");
    let exits = (o.down & !inn.1) >> (n - w);
    sym::check(ones(exits, w) == 1, "M03 there is exactly one exit in the bottom wall");
    // The exit is one of the bottom cells furthest away
    let (mut far, mut exit) = (0u8, 0u8);
    for x in 0..w {
        let d = dist[n - w + x];
        far = if d > far { d } else { far };
        exit |= ((exits >> x & 1) as u8).wrapping_mul(d);
    }
    sym::check(exit == far, "M03 the exit is a bottom cell furthest from the entrance");
    // The solution, which starts at its end
    let mut at = 0usize;
    let mut good = true;
    for s in solution.iter().rev() {
        sym::observe(100 + s.clone() as u64);
        match s {
            MazeDirection::Right => {
                good &= at % w + 1 < w && o.right >> at & 1 == 1;
                at += 1;
            }
            MazeDirection::Down => {
                good &= at / w + 1 < h && o.down >> at & 1 == 1;
                at += w;
            }
            MazeDirection::Left => {
                good &= at % w > 0 && o.right >> (at.wrapping_sub(1) & 63) & 1 == 1;
                at = at.wrapping_sub(1);
            }
            MazeDirection::Up => {
                good &= at / w > 0 && o.down >> (at.wrapping_sub(w) & 63) & 1 == 1;
                at = at.wrapping_sub(w);
            }
        }
        if !good {
            break;
        }
    }
    sym::check(good, "M02 the solution never crosses a wall nor leaves the maze");
    if good {
        sym::check(
            at / w == h - 1 && exits >> (at % w) & 1 == 1,
            "M02 the solution leads from the entrance to the exit",
        );
        sym::check(solution.len() == far as usize, "M02 the solution is a shortest path");
    }
    sym::cover("maze");
    if w > 1 && h > 1 {
        if o.right & 1 == 0 {
            sym::cover("M01 must: the first step can be closed to the right");
        }
        if o.down & 1 == 0 {
            sym::cover("M01 must: the first step can be closed downwards");
        }
        if o.right & 1 == 1 && o.down & 1 == 1 {
            sym::cover("first cell open twice");
        }
    }
}

/// Mazes of larger sizes: all but a few of the random draws are those of a fixed sequence
#[no_mangle]
pub extern "C" fn h_maze_large() {
    let (w, h) = (sym::param(0) as usize, sym::param(1) as usize);
    rng::fix(sym::param(2), sym::param(3), sym::param(4));
    let (grid, solution) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
    let n = w * h;
    sym::check(grid.len() == n, "M01 a maze has a node per cell");
    if grid.len() != n {
        return;
    }
    let open: Vec<(bool, bool)> = grid.iter().map(walls).map(|(r, d)| (!r, !d)).collect();
    let inner: usize = (0..n).map(|c| (c % w + 1 < w && open[c].0) as usize + (c + w < n && open[c].1) as usize).sum();
    sym::check(inner == n - 1, "M01 a maze has no cycles: one open wall less than cells");
    let step = |c: usize, d: &MazeDirection| match d {
        MazeDirection::Right => (c % w + 1 < w && open[c].0).then_some(c + 1),
        MazeDirection::Down => (c + w < n && open[c].1).then_some(c + w),
        MazeDirection::Left => (c % w > 0 && open[c - 1].0).then(|| c - 1),
        MazeDirection::Up => (c >= w && open[c - w].1).then(|| c - w),
    };
    let mut dist = vec![usize::MAX; n];
    dist[0] = 0;
    let mut queue = vec![0];
    let mut at = 0;
    while at < queue.len() {
        let c = queue[at];
        at += 1;
        for d in [MazeDirection::Right, MazeDirection::Down, MazeDirection::Left, MazeDirection::Up] {
            if let Some(next) = step(c, &d) {
                if dist[next] == usize::MAX {
                    dist[next] = dist[c] + 1;
                    queue.push(next);
                }
            }
        }
    }
    sym::check(queue.len() == n, "M01 every cell can be reached from every other");
    sym::check((0..h).all(|y| !open[y * w + w - 1].0), "M03 the right outer wall is intact");
    let exits: Vec<usize> = (n - w..n).filter(|&c| open[c].1).collect();
    sym::check(exits.len() == 1, "M03 there is exactly one exit in the bottom wall");
    if queue.len() == n && exits.len() == 1 {
        let far = (n - w..n).map(|c| dist[c]).max();
        sym::check(far == Some(dist[exits[0]]), "M03 the exit is a bottom cell furthest from the entrance");
        let mut at = Some(0);
        for d in solution.iter().rev() {
            at = at.and_then(|c| step(c, d));
        }
        sym::check(at.is_some(), "M02 the solution never crosses a wall nor leaves the maze");
        if at.is_some() {
            sym::check(at == Some(exits[0]), "M02 the solution leads from the entrance to the exit");
            sym::check(Some(solution.len()) == far, "M02 the solution is a shortest path");
        }
        for c in exits {
            sym::observe(c as u64);
        }
    }
    sym::cover("maze");
    if sym::param(5) == 1 {
        draw(w, h, &grid, &solution);
    }
}

/// Draw the maze and its solution: no wall is crossed and the line ends at the exit
fn pipeline(w: usize, h: usize, grid: &[MazeNode], solution: &[MazeDirection]) {
    // One path for each maze
    sym::merge(0);
    let o = read(grid);
    let (right, down) = (sym::split(o.right), sym::split(o.down));
    let grid: Vec<MazeNode> = (0..w * h).map(|i| node(right >> i & 1 == 0, down >> i & 1 == 0)).collect();
    let solution: Vec<MazeDirection> = solution.iter().map(|d| direction(sym::split(d.clone() as u64))).collect();
    draw(w, h, &grid, &solution);
}

fn draw(w: usize, h: usize, grid: &[MazeNode], solution: &[MazeDirection]) {
    let Ok(image) = print_maze(w as u32, h as u32, grid) else {
        sym::check(false, "M06 a created maze can be printed");
        return;
    };
    let before = image.clone();
    let Ok(after) = print_maze_solution(image, solution) else {
        sym::check(false, "M06 the solution of a created maze can be printed");
        return;
    };
    let (a, b) = (before.as_raw(), after.as_raw());
    sym::check(a.len() == b.len() && before.width() == after.width(), "M06 the image keeps its size");
    if a.len() != b.len() {
        return;
    }
    let stride = (w * 10 + 1) * 3;
    let mut ok = true;
    let mut at = 0;
    let mut bottom = 0;
    while at < a.len() {
        let black = (a[at] == 0) & (a[at + 1] == 0) & (a[at + 2] == 0);
        let white = (a[at] == 255) & (a[at + 1] == 255) & (a[at + 2] == 255);
        let red = (b[at] == 255) & (b[at + 1] == 0) & (b[at + 2] == 0);
        let same = (a[at] == b[at]) & (a[at + 1] == b[at + 1]) & (a[at + 2] == b[at + 2]);
        // The entrance is an opening in the first row
        let entrance = at == 15;
        ok &= same | (red & (white | (black & entrance)));
        if at / stride == h * 10 {
            bottom += red as u32;
        }
        at += 3;
    }
    sym::check(ok, "M06 the solution is red on white and crosses no wall");
    sym::check(bottom == 1, "M06 the solution leaves through the bottom wall once");
    sym::cover("printed");
}

/// Print any maze of a size: each pixel is black iff it is part of a wall
#[no_mangle]
pub extern "C" fn h_maze_print() {
    let (w, h) = (sym::param(0) as usize, sym::param(1) as usize);
    let (mut right, mut down) = (vec![false; w * h], vec![false; w * h]);
    let mut grid = Vec::new();
    // The walls of the cells before, and of those after the next ones, are a fixed pattern
    let first = sym::param(2) as usize;
    let end = if sym::param(4) == 0 { w * h } else { first + sym::param(4) as usize };
    for i in 0..w * h {
        right[i] = if i < first || i >= end { i % 2 == 0 } else { sym::boolean() };
        down[i] = if i < first || i >= end { i % 3 == 0 } else { sym::boolean() };
        grid.push(node(right[i], down[i]));
    }
    if sym::again() == 1 {
        let other: Vec<MazeNode> = (0..w * h).map(|i| node(i % 3 == 0, i % 2 == 0)).collect();
        let _ = print_maze(w as u32, h as u32, &other);
        sym::merge(sym::param(3) as u32);
        let _ = print_maze(h as u32, w as u32, &grid);
        sym::merge(0);
    }
    sym::merge(sym::param(3) as u32);
    let r = print_maze(w as u32, h as u32, &grid);
    sym::merge(0);
    let Ok(image) = r else {
        sym::check(false, "M04 a grid of matching size is printed");
        return;
    };
    let (iw, ih) = (w * 10 + 1, h * 10 + 1);
    sym::check(
        image.width() as usize == iw && image.height() as usize == ih,
        "M04 the image has ten pixels per cell and one for the wall",
    );
    let raw = image.as_raw();
    sym::check(raw.len() == iw * ih * 3, "M04 the image has ten pixels per cell and one for the wall");
    let mut black = vec![false; iw * ih];
    for y in 0..ih {
        black[y * iw] = true;
    }
    for x in 10..iw {
        black[x] = true;
    }
    for c in 0..w * h {
        let (cx, cy) = (c % w * 10, c / w * 10);
        for k in 0..=10 {
            black[(cy + k) * iw + cx + 10] |= right[c];
            black[(cy + 10) * iw + cx + k] |= down[c];
        }
    }
    let mut at = 0;
    for y in 0..ih {
        let mut ok = true;
        for x in 0..iw {
            let want = if black[y * iw + x] { 0 } else { 255 };
            ok &= (raw[at] == want) & (raw[at + 1] == want) & (raw[at + 2] == want);
            at += 3;
        }
        sym::check(ok, "M04 a pixel is black iff it lies on a wall");
    }
    sym::cover("printed");
}

/// Any dimensions for a grid of `n` cells
#[no_mangle]
pub extern "C" fn h_maze_print_size() {
    let n = sym::split(sym::range(0, sym::param(0))) as usize;
    let (w, h) = (sym::int(32), sym::int(32));
    // Images of this many pixels are out of reach
    sym::assume((w <= sym::param(1)) & (h <= sym::param(1)) | (w * h != n as u64) | ((w.max(h) > 429496729)));
    let grid: Vec<MazeNode> = (0..n).map(|_| node(true, true)).collect();
    match print_maze(w as u32, h as u32, &grid) {
        Ok(i) => {
            sym::cover("printed");
            sym::check(w * h == n as u64, "M04 a grid is printed only with matching dimensions");
            sym::check(
                (i.width() as u64 == w * 10 + 1) & (i.height() as u64 == h * 10 + 1),
                "M04 the image has ten pixels per cell and one for the wall",
            );
        }
        Err(MazeError::InvalidDimensions) => {
            sym::cover("rejected");
            sym::check(
                (w * h != n as u64) | (w.max(h) > 429496729),
                "M04 matching dimensions are accepted",
            )
        }
        Err(_) => sym::check(false, "M04 printing fails with a dimension error only"),
    }
}

fn direction(v: u64) -> MazeDirection {
    match v {
        0 => MazeDirection::Right,
        1 => MazeDirection::Down,
        2 => MazeDirection::Left,
        _ => MazeDirection::Up,
    }
}

/// Any path of `len` steps on an image of any content
#[no_mangle]
pub extern "C" fn h_maze_solution() {
    let (iw, ih) = (sym::param(0) as usize, sym::param(1) as usize);
    let max = sym::param(2);
    // Some fixed steps come first: to the right and back in each row
    let fixed = sym::param(4) as usize;
    let len = fixed + sym::split(sym::range(0, max)) as usize;
    let mut bytes = Vec::with_capacity(iw * ih * 3);
    for i in 0..iw * ih * 3 {
        bytes.push(if sym::param(3) == 1 { sym::byte() } else { (i * 7 % 256) as u8 });
    }
    let old = bytes.clone();
    let Some(image) = RgbBuffer::from_raw(iw as u32, ih as u32, bytes) else { return };
    let mut path = Vec::new();
    let mut dirs = vec![0u64; len];
    for i in 0..len {
        let wide = (iw / 10).max(1);
        let (row, at) = (i / wide, i % wide);
        dirs[i] = if i >= fixed {
            sym::split(sym::range(0, 3))
        } else if sym::param(5) == 1 {
            // To and fro
            [0, 2][i % 2]
        } else if at + 1 == wide {
            1
        } else {
            [0, 2][row % 2]
        };
    }
    for i in 0..len {
        path.push(direction(dirs[len - 1 - i]));
    }
    if sym::again() == 1 {
        let white = RgbBuffer::from_pixel(iw as u32, ih as u32, image::Rgb([255; 3]));
        let _ = print_maze_solution(white, &vec![MazeDirection::Down; len]);
        let other = RgbBuffer::from_pixel(ih as u32 + 10, iw as u32, image::Rgb([255; 3]));
        let _ = print_maze_solution(other, &path);
    }
    let result = print_maze_solution(image, &path);
    if iw < 6 || ih < 6 {
        sym::cover("too small");
        sym::check(
            matches!(result, Err(MazeError::InvalidDimensions)),
            "M05 an image without room for the first cell is rejected",
        );
        return;
    }
    // Walk the path on our own, noting the pixels drawn
    let (mut x, mut y) = (5i64, 5i64);
    let mut red = vec![false; iw * ih];
    let mut inside = true;
    for k in 0..=5 {
        red[k * iw + 5] = true;
    }
    for i in 0..len {
        let (dx, dy) = match dirs[i] {
            0 => (1, 0),
            1 => (0, 1),
            2 => (-1, 0),
            _ => (0, -1),
        };
        for _ in 0..10 {
            x += dx;
            y += dy;
            if x < 0 || y < 0 || x >= iw as i64 || y >= ih as i64 {
                inside = false;
                break;
            }
            red[y as usize * iw + x as usize] = true;
        }
        if !inside {
            break;
        }
    }
    for _ in 0..5 {
        if inside {
            y += 1;
            if y >= ih as i64 {
                inside = false;
            } else {
                red[y as usize * iw + x as usize] = true;
            }
        }
    }
    match result {
        Ok(image) => {
            sym::cover("printed");
            sym::observe(1);
            sym::check(inside, "M05 a path that leaves the image is rejected");
            sym::check(
                image.width() as usize == iw && image.height() as usize == ih,
                "M05 the image keeps its size",
            );
            let raw = image.as_raw();
            let mut ok = raw.len() == old.len();
            if ok && inside {
                for p in 0..iw * ih {
                    let q = p * 3;
                    ok &= if red[p] {
                        (raw[q] == 255) & (raw[q + 1] == 0) & (raw[q + 2] == 0)
                    } else {
                        (raw[q] == old[q]) & (raw[q + 1] == old[q + 1]) & (raw[q + 2] == old[q + 2])
                    };
                }
            }
            sym::check(ok, "M05 exactly the pixels of the path turn red");
        }
        Err(MazeError::InvalidSolution) => {
            sym::cover("rejected");
            sym::observe(2);
            sym::check(!inside, "M05 a path inside of the image is accepted")
        }
        Err(_) => sym::check(false, "M05 a path is never a dimension error"),
    }
}

// Deserialising an enum variant by name or index
struct ByIndex(u32);
impl<'de> Deserializer<'de> for ByIndex {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_enum(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> EnumAccess<'de> for ByIndex {
    type Error = Error;
    type Variant = Unit;
    fn variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> Result<(V::Value, Unit), Error> {
        let d: U32Deserializer<Error> = self.0.into_deserializer();
        Ok((s.deserialize(d)?, Unit))
    }
}
struct Unit;
impl<'de> VariantAccess<'de> for Unit {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, Error> {
        Err(serde::de::Error::custom("unit"))
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Error> {
        Err(serde::de::Error::custom("unit"))
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Error> {
        Err(serde::de::Error::custom("unit"))
    }
}

/// Any node or direction survives serialisation, in every representation formats use
#[no_mangle]
pub extern "C" fn h_maze_serde() {
    // A node as a map with its fields in any order, or as a sequence
    let (r, d) = (sym::boolean(), sym::boolean());
    let n = node(r, d);
    let mut t = Tape::default();
    sym::check(n.serialize(&mut t).is_ok(), "R01 a node is a structure");
    sym::check(t.n == 2 && !t.bad, "R01 a node has two fields");
    if t.n != 2 {
        return;
    }
    sym::check(t.fields[0].0 == "right" && t.fields[1].0 == "down", "R01 a node has its two walls");
    sym::check((t.fields[0].1 == r) & (t.fields[1].1 == d), "R01 serialising keeps the walls");
    let mut f = [t.fields[0], t.fields[1]];
    if sym::boolean() {
        f.swap(0, 1);
    }
    let de: MapDeserializer<_, Error> = MapDeserializer::new(f.into_iter());
    match MazeNode::deserialize(de) {
        Ok(n) => sym::check(walls(&n) == (r, d), "R01 a node survives a map"),
        Err(_) => sym::check(false, "R01 a node survives a map"),
    }
    let de: SeqDeserializer<_, Error> = SeqDeserializer::new([t.fields[0].1, t.fields[1].1].into_iter());
    match MazeNode::deserialize(de) {
        Ok(n) => sym::check(walls(&n) == (r, d), "R01 a node survives a sequence"),
        Err(_) => sym::check(false, "R01 a node survives a sequence"),
    }
    // A missing wall is an error
    let de: MapDeserializer<_, Error> = MapDeserializer::new([f[0]].into_iter());
    sym::check(MazeNode::deserialize(de).is_err(), "R01 a missing wall is an error");
    let de: BoolDeserializer<Error> = r.into_deserializer();
    sym::check(MazeNode::deserialize(de).is_err(), "R01 a node is no boolean");
    // Directions
    let v = sym::range(0, 3);
    let m = direction(v);
    let mut t = Tape::default();
    sym::check(m.serialize(&mut t).is_ok(), "R01 a direction is a variant");
    let de: StrDeserializer<Error> = t.variant.into_deserializer();
    match MazeDirection::deserialize(de) {
        Ok(x) => sym::check(x as u64 == m.clone() as u64, "R01 a direction survives its name"),
        Err(_) => sym::check(false, "R01 a direction survives its name"),
    }
    match MazeDirection::deserialize(ByIndex(t.index)) {
        Ok(x) => sym::check(x as u64 == m.clone() as u64, "R01 a direction survives its index"),
        Err(_) => sym::check(false, "R01 a direction survives its index"),
    }
    let i = sym::int(32) as u32;
    match MazeDirection::deserialize(ByIndex(i)) {
        Ok(x) => sym::check(x as u32 == i && i < 4, "R01 there are four directions"),
        Err(_) => sym::check(i > 3, "R01 there are four directions"),
    }
    sym::cover("round trip");
}

/// Any other names, missing walls and other types
#[no_mangle]
pub extern "C" fn h_maze_serde_any() {
    const MSG: &str = "R01 there are four directions, by their own names";
    let n = sym::param(0) as usize;
    let bytes: Vec<u8> = (0..n).map(|_| sym::byte()).collect();
    for b in &bytes {
        sym::assume(*b < 128);
    }
    let name = unsafe { std::str::from_utf8_unchecked(&bytes) };
    let named = |d: &MazeDirection| {
        let mut t = Tape::default();
        let _ = d.serialize(&mut t);
        t.variant
    };
    // A direction by any name, as text or as bytes
    let which = sym::split(sym::range(0, 2));
    if which < 2 {
        let expect = (0..4).find(|&i| named(&direction(i)) == name);
        let result = if which == 0 {
            let d: StrDeserializer<Error> = name.into_deserializer();
            MazeDirection::deserialize(d)
        } else {
            let d: BytesDeserializer<Error> = BytesDeserializer::new(&bytes);
            MazeDirection::deserialize(d)
        };
        match result {
            Ok(x) => sym::check(Some(x as u64) == expect, MSG),
            // Whether formats may give names as bytes is up to them
            Err(_) => sym::check(expect.is_none() || which == 1, MSG),
        }
        sym::cover("round trip");
        return;
    }
    // A node with a wall of any name
    let (r, d) = (sym::boolean(), sym::boolean());
    let (key, other) = if sym::boolean() { ("right", "down") } else { ("down", "right") };
    let de: MapDeserializer<_, Error> = MapDeserializer::new([(key, r), (name, d)].into_iter());
    match MazeNode::deserialize(de) {
        Ok(node) => {
            sym::check(name == other, "R01 a missing wall is an error");
            sym::check(walls(&node) == if key == "right" { (r, d) } else { (d, r) }, "R01 a node survives a map");
        }
        Err(_) => sym::check(name != other, "R01 a node survives a map"),
    }
    if n == 0 {
        let de: SeqDeserializer<_, Error> = SeqDeserializer::new([r].into_iter());
        sym::check(MazeNode::deserialize(de).is_err(), "R01 a missing wall is an error");
        let de: SeqDeserializer<_, Error> = SeqDeserializer::new([r; 0].into_iter());
        sym::check(MazeNode::deserialize(de).is_err(), "R01 a missing wall is an error");
        let de: MapDeserializer<_, Error> = MapDeserializer::new([("right", r); 0].into_iter());
        sym::check(MazeNode::deserialize(de).is_err(), "R01 a missing wall is an error");
        let v = sym::int(32) as u32;
        let de: MapDeserializer<_, Error> = MapDeserializer::new([("right", v), ("down", v)].into_iter());
        sym::check(MazeNode::deserialize(de).is_err(), "R01 a wall is no number");
        let de: SeqDeserializer<_, Error> = SeqDeserializer::new([v, v].into_iter());
        sym::check(MazeNode::deserialize(de).is_err(), "R01 a wall is no number");
        let de: MapDeserializer<_, Error> = MapDeserializer::new([("right", "true"), ("down", "false")].into_iter());
        sym::check(MazeNode::deserialize(de).is_err(), "R01 a wall is no text");
        let de: MapDeserializer<_, Error> = MapDeserializer::new([("right", ()), ("down", ())].into_iter());
        sym::check(MazeNode::deserialize(de).is_err(), "R01 a wall is not nothing");
        let de: U32Deserializer<Error> = v.into_deserializer();
        sym::check(MazeNode::deserialize(de).is_err(), "R01 a node is no number");
        let de: UnitDeserializer<Error> = ().into_deserializer();
        sym::check(MazeNode::deserialize(de).is_err(), "R01 a node is not nothing");
        let de: UnitDeserializer<Error> = ().into_deserializer();
        sym::check(MazeDirection::deserialize(de).is_err(), "R01 a direction is not nothing");
        let de: BoolDeserializer<Error> = r.into_deserializer();
        sym::check(MazeDirection::deserialize(de).is_err(), "R01 a direction is no boolean");
    }
    let de: StrDeserializer<Error> = "right".into_deserializer();
    sym::check(MazeNode::deserialize(de).is_err(), "R01 a node is no text");
    sym::cover("round trip");
}
