"""The harness jobs of each property, with what they cover."""

WORKERS = 8


class Job:
    def __init__(self, entry, params, cost=5, secs=None, core=True, samples=None, steps=0, about=""):
        self.entry, self.params, self.cost = entry, list(params), cost
        self.secs = secs or max(120, int(cost * 8))
        self.core, self.about = core, about
        self.samples = 4 if samples is None else samples
        self.steps = steps or 400_000_000


# Properties about internals, for which the harnesses need the guarded hook of /repo
INTERNAL = {"X01", "X02", "D01", "U01"}

ASSUMPTIONS = [
    "rustc's front end and LLVM's -O2 pipeline preserve the meaning of the source: what is executed is the "
    "optimised LLVM IR of /repo linked with its dependencies, with overflow checks and debug assertions on",
    "the executor's model of LLVM IR: sampled paths are run again natively and have to observe the same values",
    "every allocation succeeds",
]
TEXT = "rasterising glyphs (imageproc::draw_text_mut, ab_glyph) is replaced by a log of the requests"
CHECKSUMS = "crc32fast and simd-adler32 are replaced by plain implementations of the same sums"
RNG = "thread_rng yields any value of its type: rand's generator is replaced by unconstrained inputs, its " \
      "sampling algorithms (choose, gen_range, shuffle, ...) are the original ones"


def again(entry, params, cost, about, how=1, **kw):
    """A job whose call is not the first one: a similar one comes before (1), or the arbitrary one itself (2)"""
    params = list(params)
    return Job(entry, params + [0] * (15 - len(params)) + [how], cost=cost,
               about=about + (": after another call", ": the original, solved after that", ": after a call that resembles it")[how - 1], **kw)


def span(lo, hi, parts):
    """lo..=hi cut into consecutive ranges"""
    n = hi - lo + 1
    cuts = [lo + n * i // parts for i in range(parts + 1)]
    return [(a, b - 1) for a, b in zip(cuts, cuts[1:]) if a < b]


def solver_jobs(tier, witness):
    """Sudoku solving: clues varied in known puzzles"""
    o = []
    k = 1.4 if witness else 1

    def one(base, lo, hi, parts, each):
        for a, b in span(lo, hi, parts):
            o.append(Job("h_sudoku_one", [base, a, b], cost=each * (b - a + 1) * k,
                         about="base %d with any byte in any one of the cells %d to %d" % (base, a, b)))

    def two(base, lo, hi, stride, each):
        for a in range(lo, hi + 1):
            o.append(Job("h_sudoku_two", [base, a, a, stride], cost=each * 10 / stride,
                         about="base %d with any two digits in cell %d and every %dth later cell" % (base, a, stride)))
    if tier == "quick":
        one(0, 0, 80, 3, 0.4)
        one(1, 0, 80, 4, 0.3)
        one(2, 0, 80, 4, 0.5)
        one(3, 0, 80, 1, 0.2)
        one(4, 0, 80, 6, 0.7)
        one(5, 0, 80, 4, 0.5)
        one(6, 0, 80, 12, 2.5)
        one(7, 0, 17, 2, 2)
        two(1, 0, 8, 10, 5)
        two(0, 0, 2, 10, 20)
    else:
        for b, e in [(0, 0.4), (1, 0.3), (2, 0.5), (3, 0.2), (4, 0.7), (5, 0.5), (6, 2.5), (7, 2)]:
            one(b, 0, 80, 9, e)
        two(1, 0, 20, 4, 12)
        two(0, 0, 8, 4, 20)
        two(3, 0, 26, 4, 12)
    for b, each in [(0, 0.8), (1, 0.6), (3, 0.3)] + ([] if tier == "quick" else [(2, 1), (4, 1.4), (5, 1)]):
        for how in (1, 2):
            for x, y in span(0, 80, 3):
                o.append(again("h_sudoku_one", [b, x, y], each * (y - x + 1) * k, "base %d with any byte in any one of the cells %d to %d" % (b, x, y), how))
    for seed in (5, 6) if tier == "quick" else range(5, 25):
        o.append(Job("h_sudoku_kept", [seed, 0, 81, 0], cost=4, about="any number of clues of a solved grid, in the order %d of the cells" % seed))
        for a, b in [(12, 35), (36, 80)]:
            o.append(Job("h_sudoku_kept", [seed, a, b, 1], cost=3, about="%d to %d clues of a solved grid, in the order %d of the cells, and any digit in one more" % (a, b, seed)))
    for lo, hi, n in [(0, 27, 2), (9, 36, 3), (27, 54, 3)] + ([] if tier == "quick" else [(0, 81, 2), (9, 72, 3)]):
        o.append(Job("h_sudoku_band", [3, lo, hi, n], cost=4,
                     about="a solved grid with the cells %d to %d blanked except for %d with any digit" % (lo, hi - 1, n)))
    return o


BASES = "eight puzzles (0 blank, 1 easy, 2 hard, 3 solved, 4 minimal with 17 clues, 5 contradictory, 6 and 7 which need 5000 guesses)"


def S01(tier):
    return solver_jobs(tier, False)


def S02(tier):
    return solver_jobs(tier, True)


def S03(tier):
    o = [Job("h_sudoku_size", [0, 100], cost=2, about="0 to 100 cells of any bytes"),
         Job("h_sudoku_length", [100_000], cost=1, about="0 to 100000 blank cells")]
    for a, b in span(0, 80, 9):
        o.append(Job("h_sudoku_conflict", [0, a, b], cost=10,
                     about="two equal clues in a unit, the first in cells %d to %d" % (a, b)))
    for a, b in span(0, 80, 4):
        o.append(Job("h_sudoku_one", [1, a, b], cost=13, about="base 1 with any byte in any one of the cells %d to %d" % (a, b)))
    for how in (1, 2):
        o.append(again("h_sudoku_one", [1, 0, 80], 60, "base 1 with any byte in any one cell", how))
    o.append(Job("h_sudoku_one", [0, 0, 80], cost=32, about="base 0 with any byte in any one cell"))
    o.append(Job("h_sudoku_one", [5, 0, 20], cost=20, about="base 5 with any byte in any one of the cells 0 to 20"))
    o.append(Job("h_sudoku_one", [6, 0, 4], cost=15, about="base 6 with any byte in any one of the cells 0 to 4"))
    if tier != "quick":
        for base in (2, 3, 4, 5, 6, 7):
            for a, b in span(0, 80, 8):
                o.append(Job("h_sudoku_one", [base, a, b], cost=15,
                             about="base %d with any byte in any one of the cells %d to %d" % (base, a, b)))
        for b in (1, 4):
            for x, y in span(0, 80, 9):
                o.append(Job("h_sudoku_conflict", [b, x, y], cost=20,
                             about="two equal clues put into base %d, the first in cells %d to %d" % (b, x, y)))
    return o


def S04(tier):
    o = []
    for n in (0, 1, 79, 80, 81, 82, 90):
        o.append(Job("h_sudoku_parse", [n, 1], cost=1, about="%d characters, any one of them any Unicode character" % n))
    for n, k in [(1, 1), (2, 2), (3, 3), (4, 4), (5, 2)]:
        o.append(Job("h_sudoku_parse", [n, k], cost=2, about="%d characters, %d of them any Unicode characters" % (n, k)))
    o.append(Job("h_sudoku_parse", [20, 2], cost=5, about="20 characters, any two of them any Unicode characters"))
    for n in (1, 80, 81, 82):
        o.append(again("h_sudoku_parse", [n, 1], 1, "%d characters, any one of them any Unicode character" % n))
    o.append(Job("h_sudoku_parse_length", [0, 700], cost=2, about="0 to 700 digits"))
    o.append(Job("h_sudoku_parse_length", [65610, 65620], cost=2, about="65610 to 65620 digits"))
    if tier != "quick":
        o.append(Job("h_sudoku_parse", [81, 2], cost=100, about="81 characters, any two of them any Unicode characters"))
        o.append(Job("h_sudoku_parse", [82, 2], cost=100, about="82 characters, any two of them any Unicode characters"))
        o.append(Job("h_sudoku_parse", [5, 5], cost=60, about="5 characters of any kind"))
        o.append(Job("h_sudoku_parse", [12, 3], cost=60, about="12 characters, any three of them of any kind"))
        for n in (83, 100, 162, 250):
            o.append(Job("h_sudoku_parse", [n, 1], cost=4, about="%d characters, any one of them of any kind" % n))
    return o


def S05(tier):
    o = [Job("h_sudoku_size", [0, 100], cost=2, about="0 to 100 cells of any bytes"),
         Job("h_sudoku_length", [100_000], cost=1, about="0 to 100000 blank cells")]
    for b in (0, 1, 3):
        o.append(Job("h_sudoku_print", [b, 0, 80, 1, 0], cost=3, about="base %d with any byte in any one cell: the text drawn" % b))
    o.append(again("h_sudoku_print", [1, 0, 80, 1, 0], 6, "base 1 with any byte in any one cell: the text drawn"))
    o.append(again("h_sudoku_print", [3, 60, 60, 1, 1], 13, "base 3 with any byte in the cell 60: every pixel"))
    o.append(Job("h_sudoku_print", [1, 0, 40, 2, 0], cost=30, about="base 1 with any bytes in any two of the cells 0 to 40: the text drawn"))
    for b, a, c in [(0, 40, 42), (1, 0, 1), (3, 80, 80)]:
        o.append(Job("h_sudoku_print", [b, a, c, 1, 1], cost=13, about="base %d with any byte in one of the cells %d to %d: every pixel" % (b, a, c)))
    if tier != "quick":
        for a, c in span(0, 80, 9):
            o.append(Job("h_sudoku_print", [1, a, c, 1, 1], cost=40, about="base 1 with any byte in one of the cells %d to %d: every pixel" % (a, c)))
        o.append(Job("h_sudoku_print", [0, 0, 80, 2, 0], cost=120, secs=600, about="base 0 with any bytes in any two cells: the text drawn"))
    return o


def cover_jobs(tier, solve):
    o = []

    def s(rows, cols, fixed=0, rev=0, cost=1.0, take=None):
        for bits in take or range(1 << fixed):
            o.append(Job("h_cover_solve", [rows, cols, fixed, bits, rev], cost=cost, samples=1 if fixed else 4,
                         about="any %dx%d problem%s" % (rows, cols, " whose first bits are %s" % bin(bits)[2:] if fixed else "")))
    for r, c in [(0, 0), (1, 0), (0, 1), (1, 3), (3, 1), (2, 2), (3, 3), (4, 3), (5, 2), (6, 1)]:
        s(r, c)
    s(3, 4, rev=1)
    s(4, 3, rev=1)
    s(4, 4, fixed=3, cost=3)
    s(5, 3, fixed=3, cost=2)
    s(6, 3, fixed=4, cost=4, take=range(1, 16, 2))
    s(5, 4, fixed=6, cost=5, take=range(5, 64, 12))
    s(4, 5, fixed=6, cost=5, take=range(5, 64, 12))
    for r, c in [(2, 2), (3, 3), (4, 3), (3, 4)]:
        o.append(again("h_cover_solve", [r, c], 2, "any %dx%d problem" % (r, c)))
    for r, c, n, d in [(3, 3, 2, 0), (3, 3, 3, 0), (3, 3, 3, 1), (2, 3, 3, 0), (4, 3, 1, 0), (4, 3, 2, 1)]:
        o.append(Job("h_cover_add", [r, c, 0, 0, n, d], cost=10,
                     about="any %dx%d problem, %d rows of any index chosen beforehand, then %s" % (r, c, n, "dropped" if d else "solved")))
    for bits in range(4):
        o.append(Job("h_cover_add", [4, 3, 2, bits, 2, 0], cost=8, about="any 4x3 problem (first bits %d), 2 rows chosen beforehand" % bits))
    for r, c, seed, thin, lo, n, add, k in [(12, 8, 7, 3, 0, 6, 1, 1), (30, 20, 7, 4, 0, 5, 1, 3), (40, 30, 3, 6, 0, 5, 0, 1), (60, 60, 3, 9, 0, 3, 1, 3),
                                            (63, 24, 11, 5, 17, 5, 1, 8), (20, 64, 5, 9, 3, 4, 2, 8)]:
        o.append(Job("h_cover_large", [r, c, seed, thin, lo, n, add], cost=k,
                     about="a %dx%d problem with any values of %d of its cells and %d rows of any index chosen beforehand" % (r, c, n, add)))
    for n, stride, free, k in [(9, 1, 3, 1), (100, 3, 3, 2), (300, 1, 3, 8), (40, 1700, 3, 1)]:
        o.append(Job("h_cover_sparse", [n, stride, free], cost=k, about="%d columns with rows of their own (any of %d missing) and rows for pairs of them, "
                     "every %dth index being used, one row of any of 24 indices chosen beforehand" % (n, free, stride)))
    if tier != "quick":
        for seed in range(1, 12):
            o.append(Job("h_cover_large", [45, 30, seed, 6, seed, 8, 1], cost=60, secs=900, core=False,
                         about="a 45x30 problem with any values of 8 of its cells and a row of any index chosen beforehand"))
        s(5, 4, fixed=6, cost=5)
        s(4, 5, fixed=6, cost=5)
        s(6, 3, fixed=4, cost=5)
        s(5, 5, fixed=10, cost=40, take=range(37, 1024, 64))
        for bits in range(16):
            o.append(Job("h_cover_add", [4, 4, 4, bits, 2, 0], cost=60, secs=900, about="any 4x4 problem (first bits %d), 2 rows chosen beforehand" % bits))
            o.append(Job("h_cover_add", [4, 3, 4, bits, 3, 0], cost=20, secs=900, about="any 4x3 problem (first bits %d), 3 rows chosen beforehand" % bits))
    return o


def X01(tier):
    return cover_jobs(tier, True)


def X02(tier):
    return cover_jobs(tier, False)


def D01(tier):
    o = []
    for n, m, g, c in [(0, 1, 0, 1), (1, 1, 0, 1), (2, 2, 0, 1), (2, 3, 1, 2), (3, 3, 0, 6), (3, 4, 1, 17), (4, 3, 2, 19), (4, 4, 0, 12), (5, 3, 0, 25), (6, 2, 0, 10), (8, 2, 4, 15)]:
        o.append(Job("h_set", [n, m, g, 64], cost=c, about="any %d unions of %d elements (%d of them added later) and indices" % (m, n, g)))
    for k, c in [(2, 1), (3, 3), (4, 6)]:
        o.append(Job("h_set", [8, k, 0, 64, 1], cost=c, about="any %d unions after unions in a tournament of 8 elements" % k))
    for n, m, new, c in [(1, 3, 0, 1), (2, 3, 0, 2), (2, 4, 1, 5), (3, 3, 0, 5), (4, 2, 1, 5)]:
        o.append(Job("h_set_any", [n, m, new], cost=c, about="any %d operations (unions, queries, additions) on a set of %d elements, and a query" % (m, n)))
    o.append(again("h_set_any", [3, 3], 6, "any 3 operations (unions, queries, additions) on a set of 3 elements, and a query"))
    shapes = ["a chain", "a chain backwards", "random unions", "a tournament"]
    for n, shape, ops, step, count in [(300, 0, 1, 17, 6), (300, 1, 1, 17, 6), (300, 2, 1, 17, 6), (300, 3, 1, 41, 6), (512, 3, 1, 33, 6), (1024, 3, 2, 93, 3),
                                       (70000, 0, 0, 7000, 9), (70000, 1, 0, 7000, 9), (66000, 0, 1, 131, 4)]:
        o.append(Job("h_set_large", [n, shape, ops, step, count], cost=2,
                     about="%s of %d elements, any %d unions of %d elements and indices" % (shapes[shape], n, ops, count)))
    if tier != "quick":
        for shape in range(4):
            o.append(Job("h_set_large", [400, shape, 2, 19, 9], cost=100, secs=1200, core=False,
                         about="%s of 400 elements, any 2 unions of 9 elements and indices" % shapes[shape]))
        for n, m, g, c in [(4, 5, 0, 60), (5, 4, 1, 250), (6, 3, 0, 100), (7, 3, 3, 200)]:
            o.append(Job("h_set", [n, m, g, 64], cost=c, secs=1800, about="any %d unions of %d elements (%d of them added later) and indices" % (m, n, g)))
        o.append(Job("h_set", [16, 3, 0, 64, 1], cost=100, secs=1800, core=False, about="any 3 unions after unions in a tournament of 16 elements"))
    return o


def U01(tier):
    o = [Job("h_choose", [n], cost=1, about="any vector of %d values" % n) for n in range(0, 9)]
    o += [Job("h_choose_large", [n], cost=2, about="a vector of %d distinct values" % n) for n in (3, 20, 70, 300)]
    o += [again("h_choose", [n], 1, "any vector of %d values" % n) for n in range(0, 7)]
    o += [again("h_choose_large", [n], 2, "a vector of %d distinct values" % n) for n in (9, 70)]
    if tier != "quick":
        o += [Job("h_choose_large", [1000], cost=60, secs=900, core=False, about="a vector of 1000 distinct values")]
        o += [Job("h_choose", [n], cost=5, about="any vector of %d values" % n) for n in (9, 10, 12)]
    return o


def maze_jobs(tier):
    sizes = [(1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1), (1, 3, 1), (6, 1, 1), (1, 6, 1), (10, 1, 2), (1, 10, 2), (3, 2, 1), (2, 3, 1), (4, 2, 2),
             (2, 4, 2), (3, 3, 7), (5, 2, 15), (2, 5, 27)]
    if tier != "quick":
        sizes += [(20, 1, 30), (1, 20, 30), (4, 3, 2000), (3, 4, 2000), (6, 2, 2000), (2, 6, 2000)]
    return [Job("h_maze", [w, h, 12 if c < 100 else 96, 0], cost=c, secs=None if c < 100 else 7200, core=c < 100,
                about="mazes %d wide and %d high, whatever is drawn at random" % (w, h)) for w, h, c in sizes] + large_mazes(tier, 0) + [
        again("h_maze", [w, h, 12, 0], 2, "mazes %d wide and %d high, whatever is drawn at random" % (w, h)) for w, h in [(1, 1), (2, 2), (3, 2), (2, 3), (4, 2)]]


def large_mazes(tier, draw):
    """Larger mazes, for which only a few of the random draws are arbitrary"""
    o = [(4, 4, 7, 0, 5), (4, 4, 8, 9, 5), (6, 4, 3, 20, 5), (9, 9, 5, 60, 4), (17, 17, 7, 10, 4), (17, 17, 7, 400, 3), (20, 3, 9, 30, 4), (3, 20, 9, 30, 4),
         (30, 2, 4, 0, 4), (2, 30, 4, 0, 4), (300, 1, 5, 3, 2), (1, 300, 5, 500, 2), (130, 2, 6, 300, 2), (2, 130, 6, 300, 2), (33, 33, 11, 1000, 2),
         (100, 100, 3, 9000, 3), (66000, 1, 3, 100, 1), (1, 66000, 3, 100, 1), (257, 257, 5, 1000, 1)]
    if tier != "quick":
        o += [(100, 100, 3, 5000, 5), (66000, 1, 3, 100000, 1), (257, 257, 6, 100000, 2), (9, 9, 6, 0, 8), (9, 9, 7, 100, 8), (17, 17, 8, 200, 8)]
    return [Job("h_maze_large", [w, h, seed, skip, free, draw], cost=4 + w * h // (500 if draw else 5000), steps=2_000_000_000, secs=240 if tier == "quick" else 1200, core=tier == "quick", samples=2,
                about="mazes %d wide and %d high, %d draws after the first %d being arbitrary%s" % (w, h, free, skip, ", and their pictures" if draw else ""))
            for w, h, seed, skip, free in o]


def M06(tier):
    o = [(1, 1, 1), (1, 3, 1), (3, 1, 1), (2, 2, 1), (3, 2, 1), (2, 3, 1), (4, 2, 3), (2, 4, 3), (3, 3, 7)]
    if tier != "quick":
        o += [(5, 2, 30), (2, 5, 50)]
    return [Job("h_maze", [w, h, 12, 1], cost=c, secs=None if c < 100 else 3000, core=c < 100,
                about="mazes %d wide and %d high and their pictures" % (w, h)) for w, h, c in o] + large_mazes(tier, 1) + [
        again("h_maze", [w, h, 12, 1], 2, "mazes %d wide and %d high and their pictures" % (w, h)) for w, h in [(2, 2), (3, 2), (2, 3)]]


def M04(tier):
    o = []
    for w, h, f in [(1, 1, 0), (2, 2, 0), (3, 3, 0), (4, 1, 0), (1, 4, 0), (5, 5, 0), (12, 1, 0), (1, 12, 0), (7, 9, 20)]:
        o.append(Job("h_maze_print", [w, h, f, 64], cost=2, about="any maze of %dx%d (the first %d cells a fixed pattern): every pixel" % (w, h, f)))
    for w, h, f, n in [(30, 30, 0, 0), (300, 1, 297, 0), (1, 300, 297, 0), (70, 40, 100, 500), (13, 300, 2000, 400), (120, 1, 0, 0), (1, 120, 0, 0),
                       (260, 260, 67590, 4), (257, 2, 505, 0)]:
        o.append(Job("h_maze_print", [w, h, f, 64, n], cost=2 + w * h // 5000,
                     about="any maze of %dx%d (cells but %s a fixed pattern): every pixel" % (w, h, "%d from the %dth on" % (n, f) if n else "those after the first %d" % f)))
    for w, h in [(2, 2), (3, 2), (12, 9)]:
        o.append(again("h_maze_print", [w, h, 0, 64], 2, "any maze of %dx%d: every pixel" % (w, h)))
    o.append(Job("h_maze_print_size", [0, 3], cost=7, about="0 cells, dimensions of 32 bits"))
    o.append(Job("h_maze_print_size", [2, 3], cost=20, about="up to 2 cells, dimensions of 32 bits"))
    o.append(Job("h_maze_print_size", [4, 4], cost=30, about="up to 4 cells, dimensions of 32 bits"))
    if tier != "quick":
        o.append(Job("h_maze_print_size", [9, 9], cost=200, secs=1800, about="up to 9 cells, dimensions of 32 bits"))
        for w, h, f in [(8, 8, 0), (60, 60, 0), (100, 100, 0), (1000, 3, 2000), (3, 1000, 2000)]:
            o.append(Job("h_maze_print", [w, h, f, 64], cost=30, secs=1200, core=False, about="any maze of %dx%d (the first %d cells a fixed pattern): every pixel" % (w, h, f)))
    return o


def M05(tier):
    o = []
    for w, h, n, s in [(5, 6, 1, 0), (6, 5, 1, 0), (0, 9, 1, 0), (6, 6, 1, 0), (6, 11, 2, 0), (6, 10, 1, 0), (15, 11, 2, 0), (16, 11, 3, 0), (11, 11, 2, 1),
                       (15, 21, 4, 0), (16, 20, 4, 0), (21, 21, 6, 0), (31, 21, 6, 0), (25, 16, 6, 0), (26, 35, 6, 1), (50, 6, 5, 0), (6, 50, 5, 0), (41, 41, 6, 0)]:
        o.append(Job("h_maze_solution", [w, h, n, s], cost=3, about="any path of up to %d steps on %s picture of %dx%d" % (n, "any" if s else "a", w, h)))
    for w, h, n, s, fixed in [(301, 301, 2, 0, 820), (3001, 11, 2, 0, 298), (11, 3001, 2, 0, 298), (141, 96, 4, 1, 20), (51, 51, 4, 0, 15)]:
        o.append(Job("h_maze_solution", [w, h, n, s, fixed], cost=5,
                     about="a path of %d fixed and up to %d arbitrary steps on %s picture of %dx%d" % (fixed, n, "any" if s else "a", w, h)))
    for w, h, fixed in [(31, 31, 1100), (16, 16, 66000)]:
        o.append(Job("h_maze_solution", [w, h, 2, 0, fixed, 1], cost=8,
                     about="a path of %d fixed steps to and fro and up to 2 arbitrary steps on a picture of %dx%d" % (fixed, w, h)))
    for w, h, n in [(21, 21, 4), (15, 21, 3)]:
        o.append(again("h_maze_solution", [w, h, n, 0], 3, "any path of up to %d steps on a picture of %dx%d" % (n, w, h)))
    if tier != "quick":
        for w, h, n, s in [(41, 41, 8, 0), (31, 31, 8, 1), (26, 16, 9, 0), (36, 27, 9, 0), (91, 6, 9, 0), (6, 91, 9, 0)]:
            o.append(Job("h_maze_solution", [w, h, n, s], cost=60, secs=1200, about="any path of up to %d steps on %s picture of %dx%d" % (n, "any" if s else "a", w, h)))
    return o


def R01(tier):
    return [Job("h_maze_serde", [], cost=20, about="any node and direction, any variant index")] + [
        Job("h_maze_serde_any", [n], cost=2, about="names of %d ASCII characters%s" % (n, "" if n else ", missing walls, other types")) for n in range(17 if tier == "quick" else 40)]


def N01(tier):
    o = [Job("h_nonogram_parse", [n, 0, 1], cost=c, about="any ASCII text of %d bytes, any limit" % n) for n, c in [(0, 1), (1, 1), (2, 2), (3, 1), (4, 1), (5, 3), (6, 25)]]
    for n, t, b, c, what in [(4, 1, 1, 15, "numbers of 20 digits, the last 4 bytes of any kind, any limit"),
                             (3, 2, 0, 8, "`1,2;`, any 3 bytes, `,3`"), (4, 2, 0, 13, "`1,2;`, any 4 bytes, `,3`"),
                             (4, 3, 0, 12, "4 bytes of characters of up to 2 bytes"),
                             (5, 1, 1, 3, "numbers of 20 digits, the last 5 bytes of any kind, any limit"),
                             (5, 2, 0, 1, "`1,2;`, any 5 bytes, `,3`"), (5, 3, 0, 1, "5 bytes of characters of up to 2 bytes")]:
        o.append(Job("h_nonogram_parse", [n, t, b], cost=c, about=what))
    for n, lo, hi, per in [(61, 0, 60, 3), (61, 40, 60, 30), (801, 780, 800, 400), (1201, 0, 10, 1), (1201, 1190, 1200, 1)]:
        o.append(Job("h_nonogram_parse", [n, 4, 1, lo, hi, per], cost=2,
                     about="rules of %d numbers each in a text of %d bytes, of which one from the %dth to the %dth is any ASCII character, any limit" % (per, n, lo, hi)))
    for n, t, b, what in [(3, 0, 1, "any ASCII text of 3 bytes, any limit"), (5, 0, 0, "any ASCII text of 5 bytes"), (3, 2, 0, "`1,2;`, any 3 bytes, `,3`")]:
        o.append(again("h_nonogram_parse", [n, t, b], 5, what))
    if tier != "quick":
        for n, t, b, c, what in [(7, 0, 0, 150, "any ASCII text of 7 bytes"), (7, 0, 1, 300, "any ASCII text of 7 bytes, any limit"),
                                 (6, 1, 1, 100, "numbers of 20 digits, the last 6 bytes of any kind"),
                                 (6, 2, 0, 60, "`1,2;`, any 6 bytes, `,3`"), (6, 3, 0, 60, "6 bytes of characters of up to 2 bytes")]:
            o.append(Job("h_nonogram_parse", [n, t, b], cost=c, secs=1800, about=what))
    return o


def nono_jobs(tier):
    o = []

    def j(w, h, extra, zeros, free, parts, take, cost):
        for p in take:
            what = "%sany rules for %d columns and %d rows" % ("part %d of %d of " % (p, parts) if parts > 1 else "", w, h)
            if extra:
                what += ", too long by up to %d" % extra
            if zeros:
                what += ", runs of length zero included"
            if not free:
                what += ", with equal totals"
            o.append(Job("h_nonogram_solve", [w, h, extra, zeros, free, p, parts], cost=cost, samples=2, about=what))
    j(1, 1, 1, 1, 1, 1, [0], 1)
    j(2, 1, 1, 1, 1, 1, [0], 1)
    j(1, 2, 1, 1, 1, 1, [0], 1)
    j(2, 2, 1, 1, 1, 1, [0], 1)
    j(3, 2, 1, 0, 1, 1, [0], 6)
    j(2, 3, 1, 0, 1, 1, [0], 6)
    j(3, 3, 0, 0, 0, 8, range(8), 1)
    j(4, 2, 0, 0, 0, 1, [0], 3)
    j(2, 4, 0, 0, 0, 1, [0], 3)
    j(6, 1, 0, 0, 1, 1, [0], 4)
    j(1, 6, 0, 0, 1, 1, [0], 4)
    j(3, 1, 1, 1, 1, 1, [0], 3)
    j(1, 3, 1, 1, 1, 1, [0], 3)
    j(5, 2, 0, 0, 0, 4, range(4), 3)
    j(2, 5, 0, 0, 0, 4, range(4), 3)
    j(3, 4, 0, 0, 0, 32, range(1, 32, 3), 5)
    j(4, 3, 0, 0, 0, 32, range(1, 32, 3), 5)
    j(4, 4, 0, 0, 0, 400, [8, 17, 197, 257, 317], 7)
    j(3, 3, 1, 0, 1, 32, range(5, 32, 8), 8)
    for w, h, zeros in [(1, 1, 1), (2, 2, 1), (3, 2, 0), (2, 3, 0)]:
        for how in (1, 3):
            o.append(again("h_nonogram_solve", [w, h, 0, zeros, 1, 0, 1], 6, "any rules for %d columns and %d rows" % (w, h), how, samples=2))
    pictures = ["diagonals", "noise", "mostly filled", "rectangles", "a chessboard"]

    def base(w, h, kind, seed, lo, hi, change, cost):
        for a, b in span(lo, hi, max(1, round(cost / 10))):
            o.append(Job("h_nonogram_base", [w, h, kind, seed, a, b, change], cost=cost / max(1, round(cost / 10)), samples=2, core=False, about="the puzzle of a picture (%s) of %dx%d %s" % (
                pictures[kind], w, h, "with any one of the squares %d to %d inverted" % (a, b) if not change else
                "with other lengths of a run in the columns and one in the rows from %d to %d" % (a, b))))
    for w, h, kind, seed, lo, hi in [(10, 10, 1, 7, 0, 99), (7, 7, 0, 1, 0, 48), (15, 15, 2, 5, 0, 20)]:
        for how in (1, 2):
            o.append(again("h_nonogram_base", [w, h, kind, seed, lo, hi, 0], 9, "the puzzle of a picture (%s) of %dx%d with any one of the squares %d to %d inverted" % (
                pictures[kind], w, h, lo, hi), how, samples=2, core=False))
    base(10, 10, 1, 7, 0, 99, 0, 7)
    base(10, 10, 2, 3, 0, 99, 0, 4)
    base(10, 10, 1, 7, 0, 1, 1, 10)
    base(10, 10, 2, 3, 4, 6, 1, 10)
    base(7, 7, 0, 1, 0, 48, 0, 3)
    base(8, 8, 4, 1, 0, 7, 0, 1)
    base(12, 12, 0, 1, 0, 143, 0, 23)
    base(30, 30, 0, 1, 0, 10, 0, 23)
    base(40, 40, 0, 1, 780, 781, 0, 11)
    base(11, 11, 4, 1, 0, 3, 0, 4)
    base(15, 15, 2, 5, 0, 20, 0, 2)
    base(25, 25, 3, 5, 0, 20, 0, 5)
    base(70, 2, 1, 5, 0, 7, 0, 4)
    base(2, 70, 1, 5, 60, 67, 0, 3)
    base(40, 40, 3, 5, 1500, 1503, 0, 3)
    base(300, 2, 3, 5, 100, 103, 0, 3)
    base(2, 300, 3, 5, 500, 503, 0, 3)
    if tier != "quick":
        for seed in range(1, 6):
            base(10, 10, 1, seed, 0, 99, 0, 40)
            base(12, 12, 2, seed, 0, 143, 0, 40)
            base(10, 10, 2, seed, 0, 9, 1, 200)
        base(20, 20, 2, 5, 0, 399, 0, 200)
        base(30, 30, 3, 5, 0, 899, 0, 200)
        j(3, 3, 0, 1, 0, 8, range(8), 100)
        j(3, 3, 1, 0, 1, 32, range(32), 15)
        j(5, 3, 0, 0, 0, 64, range(3, 64, 8), 40)
        j(3, 5, 0, 0, 0, 64, range(3, 64, 8), 60)
        j(3, 4, 0, 0, 0, 32, range(32), 6)
        j(4, 3, 0, 0, 0, 32, range(32), 11)
        j(4, 4, 0, 0, 0, 400, range(0, 400, 8), 19)
        j(5, 1, 0, 1, 1, 1, [0], 60)
        j(1, 5, 0, 1, 1, 1, [0], 60)
        j(8, 1, 0, 0, 1, 1, [0], 100)
    return o


def N04(tier):
    return nono_jobs(tier) + [Job("h_nonogram_empty", [], cost=1, about="no rows or no columns")] + [
        Job("h_nonogram_huge", [w, h, k], cost=2, about="a puzzle of %dx%d with any %d runs in one rule" % (w, h, k)) for w, h, k in [(1, 1, 1), (2, 2, 1), (3, 2, 2), (2, 3, 3)]]


def N06(tier):
    o = []
    for p, c in [((1, 1, 12, 2, 2, 1), 4), ((2, 1, 12, 2, 2, 1), 4), ((1, 2, 12, 2, 2, 1), 4), ((3, 2, 120, 2, 2, 0), 10), ((16, 1, 9, 1, 1, 1), 2), ((1, 16, 9, 1, 1, 1), 2), ((6, 6, 12, 2, 1, 1), 10),
                 ((60, 3, 120, 2, 1, 1, 5), 4), ((3, 60, 120, 2, 1, 1, 20), 4), ((40, 40, 12, 1, 1, 1, 13), 4), ((20, 20, 12, 2, 1, 1), 2), ((300, 1, 12, 1, 1, 1), 4), ((1, 300, 12, 1, 1, 1), 4)]:
        o.append(Job("h_nonogram_print", p, cost=c, about="a puzzle of %dx%d, up to %d runs up to %d in the first %d rules" % (p[0], p[1], p[3], p[2], p[4])))
    o.append(Job("h_nonogram_print_size", [], cost=1, about="up to 2 rows and columns, dimensions of 32 bits"))
    for w, h in [(2, 1), (1, 2), (3, 2)]:
        o.append(again("h_nonogram_print", [w, h, 12, 2, 2, 1], 4, "a puzzle of %dx%d, up to 2 runs up to 12 in the first 2 rules" % (w, h)))
    for h in (9, 10, 11):
        o.append(Job("h_nonogram_print_tall", [h], cost=1, about="a column of %d squares with as many runs as possible" % h))
    for lo, hi in [(100, 11000), (65500, 65600), (2 ** 32 - 99, 2 ** 32 + 99), (2 ** 64 - 999, 2 ** 64 - 1)]:
        o.append(Job("h_nonogram_print", [1, 1, hi, 1, 2, 0, 0, lo], cost=4, about="a puzzle of one square, runs from %d to %d" % (lo, hi)))
    if tier != "quick":
        for p, c in [((2, 2, 12, 2, 4, 0), 100), ((1, 1, 1200, 3, 2, 1), 100), ((7, 7, 12, 2, 2, 1), 100)]:
            o.append(Job("h_nonogram_print", p, cost=c, secs=1200, core=False, about="a puzzle of %dx%d, up to %d runs up to %d in the first %d rules" % (p[0], p[1], p[3], p[2], p[4])))
    return o


def N07(tier):
    o = []
    for p, c in [((1, 1, 0), 1), ((2, 1, 0), 1), ((1, 2, 0), 1), ((2, 2, 0), 1), ((16, 1, 14), 2), ((1, 16, 14), 2), ((17, 16, 267), 5), ((3, 2, 0), 1),
                 ((3, 3, 0), 2), ((4, 2, 0), 2), ((2, 4, 0), 2), ((9, 1, 0), 3), ((1, 9, 0), 3), ((60, 3, 177), 3), ((3, 60, 177), 3), ((300, 1, 297), 3), ((1, 300, 297), 3),
                 ((1, 1, 0, 0, 1), 2), ((2, 2, 1, 0, 2), 3), ((3, 1, 0, 0, 3), 3), ((16, 17, 270, 0, 4), 5)]:
        o.append(Job("h_nonogram_fill", p, cost=c, about="any solution of %dx%d (the first %d squares a fixed pattern)%s: every pixel" % (
            p[0], p[1], p[2], " on a picture of which some pixels have any colour" if p[4:] else "")))
    for w, h in [(1, 1), (3, 2), (2, 3)]:
        o.append(again("h_nonogram_fill", [w, h, 0], 3, "any solution of %dx%d: every pixel" % (w, h)))
    for p, c in [((200, 200, 2), 7), ((250, 200, 3), 7), ((0, 0, 1), 1), ((150, 200, 1), 5)]:
        o.append(Job("h_nonogram_fill_size", p, cost=c, about="up to %d squares on a picture of %dx%d, dimensions of 32 bits" % (p[2], p[0], p[1])))
    if tier != "quick":
        for p, c in [((960, 200, 16), 35), ((200, 960, 16), 35), ((300, 300, 9), 35)]:
            o.append(Job("h_nonogram_fill_size", p, cost=c, about="up to %d squares on a picture of %dx%d, dimensions of 32 bits" % (p[2], p[0], p[1])))
        for p, c in [((4, 3, 0), 100), ((3, 4, 0), 100), ((40, 40, 1592), 100)]:
            o.append(Job("h_nonogram_fill", p, cost=c, secs=1200, core=False, about="any solution of %dx%d: every pixel" % (p[0], p[1])))
    return o


def E01(tier):
    o = [Job("h_error_kinds", [], cost=1, about="each kind of error")]
    for k in (0, 1):
        o.append(Job("h_error_character", [k], cost=1, about="any character that is no digit, " + ("first", "after digits")[k]))
    for a in [(0, 0, 300), (0, 200, 100000), (0, 2 ** 32 - 200, 2 ** 32 + 200), (0, 2 ** 64 - 600, 2 ** 64 - 1)]:
        o.append(Job("h_error_size", a, cost=8, about="errors that name any size from %d to %d" % a[1:]))
    for k, what in [(1, "parsing"), (2, "solving"), (3, "printing")]:
        for a, b in [(0, 170), (990, 1010), (65530, 65540)]:
            o.append(Job("h_error_size", [k, a, b], cost=2, about="%s %d to %d cells" % (what, a, b)))
    for before, n, wide in [(0, 1, 0), (0, 3, 0), (0, 8, 0), (0, 3, 1), (30, 2, 1), (300, 1, 1), (1000, 1, 1), (0, 200, 0), (0, 2, 1)]:
        for k in (0, 1):
            if k == 1 and n > 3:
                continue
            o.append(Job("h_error_rule", [before, n, wide, k], cost=2,
                         about="%s parts of a rule that consist of %d letters, any %d %s and a letter" % (("errors that name", "parsing")[k], before, n, ("ASCII characters", "characters")[wide])))
    if tier != "quick":
        o.append(Job("h_error_size", [0, 0, 2 ** 64 - 1], cost=400, secs=3000, core=False, about="errors that name any size"))
        for n in (4, 5):
            o.append(Job("h_error_rule", [0, n, 1, 1], cost=50, secs=1500, about="parsing parts of a rule that consist of any %d characters and a letter" % n))
    return o


def P01(tier):
    o = []
    for a, b, c, d, kind, k in [(0, 9, 0, 9, 0, 1), (0, 9, 0, 9, 1, 1), (255, 258, 1, 2, 1, 1), (1, 2, 255, 258, 0, 1), (150, 151, 150, 151, 0, 5),
                                (150, 150, 150, 150, 1, 1), (0, 0, 100, 101, 0, 1), (3001, 3001, 11, 11, 0, 2), (11, 11, 3001, 3001, 2, 2),
                                (65536, 65537, 1, 1, 1, 6), (1, 1, 65536, 65537, 0, 12), (400, 400, 300, 300, 2, 12)]:
        o.append(Job("h_png_size", [a, b, c, d, kind], cost=k, about="a fixed picture of any width from %d to %d and height from %d to %d" % (a, b, c, d)))
    for w, h, lo, n, step, kind, k in [(1, 1, 0, 3, 1, 0, 1), (2, 1, 3, 3, 1, 0, 5), (2, 2, 0, 2, 3, 0, 5), (2, 2, 9, 3, 1, 0, 12), (1, 3, 0, 3, 3, 1, 11),
                                       (3, 1, 0, 3, 3, 1, 14), (3, 2, 0, 1, 1, 1, 4), (3, 3, 24, 3, 1, 1, 8), (4, 4, 45, 3, 1, 1, 10), (8, 8, 189, 2, 1, 1, 1),
                                       (12, 12, 430, 2, 1, 1, 5)]:
        o.append(Job("h_png", [w, h, lo, n, step, kind], cost=k, core=k < 3,
                     about="a picture of %dx%d of which %d bytes from the %dth on, %d apart, have any value" % (w, h, n, lo, step)))
    for w, h, lo, hi, n, kind, k in [(2, 2, 0, 3, 2, 0, 1), (10, 10, 0, 99, 1, 0, 3), (10, 10, 0, 99, 1, 1, 3), (40, 21, 400, 440, 1, 2, 5), (9, 3, 0, 12, 2, 2, 5)]:
        o.append(Job("h_png_pixel", [w, h, lo, hi, n, kind], cost=k, about="a picture of %dx%d in which any %d of the pixels %d to %d have any of four colours" % (w, h, n, lo, hi)))
    for a, c, kind in [(2, 3, 0), (10, 11, 1)]:
        o.append(again("h_png_size", [a, c, a, c, kind], 2, "a fixed picture of any width and height from %d to %d" % (a, c)))
    o.append(again("h_png_pixel", [3, 3, 0, 8, 1, 0], 2, "a picture of 3x3 in which any one of the pixels has any of four colours"))
    if tier != "quick":
        for w, h, lo, n, step, kind in [(2, 1, 0, 6, 1, 1), (3, 2, 9, 4, 1, 1), (8, 8, 186, 6, 1, 1), (8, 8, 100, 1, 1, 1), (40, 40, 4700, 1, 1, 0)]:
            o.append(Job("h_png", [w, h, lo, n, step, kind], cost=200, secs=1800, core=False,
                         about="a picture of %dx%d of which %d bytes from the %dth on, %d apart, have any value" % (w, h, n, lo, step)))
        for a in (900, 750):
            o.append(Job("h_png_size", [a, a, a, a, 0], cost=60, secs=900, core=False, about="a fixed picture of %dx%d" % (a, a)))
        o.append(Job("h_png_pixel", [6, 6, 0, 35, 2, 0], cost=60, secs=900, core=False, about="a picture of 6x6 in which any 2 of the pixels have any of four colours"))
    return o


SUDOKU_BOUNDS = "inputs are " + BASES + " in which one cell (at any position) holds any byte, or two cells hold any " \
    "digits, or two equal clues of any value share a unit, or whole bands are blanked, or any number of clues of a solved grid is kept; the jobs list the cells"
SUDOKU_OUT = "puzzles that differ from the base puzzles in more cells than stated"
COVER_BOUNDS = "every exact cover problem of up to 4x4 and 5x3 (rows by columns), 6x1, half of those of 6x3, parts of " \
    "those of 5x4 and 4x5 (jobs; all of them in the thorough tier); up to 3 rows chosen beforehand for up to 4x3; " \
    "any values of 3 to 6 cells of six larger problems of up to 63 rows and 64 columns, with up to 2 rows chosen beforehand; " \
    "four problems of up to 300 columns or row indices up to 100000, any 3 of whose rows may be missing"
MAZE_BOUNDS = "every outcome of every random draw for mazes up to 3x3, 5x2, 2x5, 10x1 and 1x10; for mazes of up to 257x257, 66000x1 and 1x66000, " \
              "every outcome of 2 to 5 draws in a row, the others being from one fixed sequence"
NONO_BOUNDS = "every sequence of runs per line for puzzles up to 3x3, 5x2, 2x5, 6x1 and 1x6 (parts of 4x3, 3x4 and 4x4, see jobs); " \
              "the puzzles of pictures of up to 40x40, 300x2 and 2x300 with any one square inverted (or one in a range, see jobs), or with runs of other lengths in one rule"

PROPERTIES = {
    "S01": dict(bounds=SUDOKU_BOUNDS, outside=SUDOKU_OUT, covers=["solved", "no solution"]),
    "S02": dict(bounds=SUDOKU_BOUNDS, outside=SUDOKU_OUT, covers=["solved", "no solution"]),
    "S03": dict(bounds=SUDOKU_BOUNDS + "; 0 to 100 cells of any content", outside=SUDOKU_OUT + "; more than 100 cells (100000 blank ones)",
                covers=["solved", "no solution", "size error"]),
    "S04": dict(bounds="0 to 700 digits, texts of 0 to 90 characters (see jobs) in which one, and for short ones several, are any Unicode characters",
                outside="longer texts, more arbitrary characters at once", covers=["parsed", "invalid character", "invalid size"]),
    "S05": dict(bounds="three base puzzles with any byte in one or two cells; grids of 0 to 100 cells", outside="other puzzles; glyph shapes",
                covers=["printed", "size error"], assumptions=[TEXT]),
    "X01": dict(bounds=COVER_BOUNDS, outside="other larger problems", covers=["solved", "no solution", "accepted", "rejected"]),
    "X02": dict(bounds=COVER_BOUNDS, outside="other larger problems", covers=["solved", "no solution", "accepted", "rejected"]),
    "D01": dict(bounds="any sequences of up to 4 unions of up to 4, 3 of 5, 2 of 6 to 8 elements; up to 4 unions after a fixed tournament of 8 elements; up to 2 unions of up to 9 elements, any query, after fixed unions of 300 to 70000 elements", outside="longer histories, larger sets",
                covers=["connected", "disconnected"]),
    "U01": dict(bounds="vectors of up to 8 values of any kind and 3, 20, 70 and 300 distinct ones", outside="other lengths; probabilities",
                covers=["chose %d" % i for i in range(5)],
                must=["chose %d" % i for i in range(5)] + ["chose %d of %d" % (i, n) for n in (3, 20, 70, 300) for i in range(n)], assumptions=[RNG]),
    "M01": dict(bounds=MAZE_BOUNDS, outside="other outcomes for larger mazes; probabilities",
                covers=["maze", "M01 must: the first step can be closed to the right", "M01 must: the first step can be closed downwards"],
                must=["M01 must: the first step can be closed to the right", "M01 must: the first step can be closed downwards"], assumptions=[RNG]),
    "M02": dict(bounds=MAZE_BOUNDS, outside="other outcomes for larger mazes", covers=["maze"], assumptions=[RNG]),
    "M03": dict(bounds=MAZE_BOUNDS, outside="other outcomes for larger mazes", covers=["maze"], assumptions=[RNG]),
    "M04": dict(bounds="all mazes of up to 25 cells (larger ones, up to 300 cells a side or 260x260, with a fixed part); dimensions of 32 bits for up to 4 cells",
                outside="larger pictures", covers=["printed", "rejected"]),
    "M05": dict(bounds="all paths of up to 6 steps on pictures of the listed sizes, also after up to 66000 fixed steps", outside="longer paths, other sizes",
                covers=["printed", "rejected", "too small"]),
    "M06": dict(bounds="every outcome of every random draw for mazes up to 3x3, 4x2 and 2x4; for mazes of up to 257x257, 66000x1 and 1x66000, every outcome of 2 to 5 draws in a row, the others being fixed", outside="other outcomes for larger mazes", covers=["maze", "printed"], assumptions=[RNG]),
    "R01": dict(bounds="all nodes and directions; every variant index of 32 bits; maps, sequences, names and indices",
                outside="particular formats (JSON, ...)", covers=["round trip"]),
    "N01": dict(bounds="texts of up to 6 ASCII bytes (5 bytes of two-byte characters), numbers around 2^64, any limit; texts of up to 1201 bytes of which one is arbitrary",
                outside="longer texts with more arbitrary bytes", covers=["parsed", "invalid rule", "rule too long"]),
    "N02": dict(bounds=NONO_BOUNDS, outside="other larger puzzles", covers=["solved", "no solution"]),
    "N03": dict(bounds=NONO_BOUNDS, outside="other larger puzzles", covers=["solved", "no solution"]),
    "N04": dict(bounds=NONO_BOUNDS, outside="other larger puzzles; runs that do not fit into memory", covers=["solved", "no solution", "empty"]),
    "N06": dict(bounds="puzzles of the listed sizes, any runs in the first rules", outside="other sizes; glyph shapes",
                covers=["printed", "rejected"], assumptions=[TEXT]),
    "E01": dict(bounds="every kind of error; every character; sizes of 0 to 100000 and around 2^32 and 2^64; parts of rules of up to 1000 characters, of which up to 3 (ASCII: 200) are any",
                outside="other sizes and parts of rules; the wording", covers=["message", "kinds"]),
    "P01": dict(bounds="pictures of 0 to 9 pixels a side and of sizes up to 65537 in one direction; any bytes in up to 3 places of pictures of up to 4x4 "
                "(in the last places of larger ones), or any of the crate's colours in one or two pixels of pictures up to 40x21",
                outside="larger pictures; more arbitrary bytes at once; the checksums of pictures with arbitrary bytes; kinds of PNG other than 8-bit grey, RGB and RGBA",
                covers=["encoded", "empty"], assumptions=[CHECKSUMS]),
    "N07": dict(bounds="any solution of up to 3x2 (larger ones with a fixed part), dimensions of 32 bits",
                outside="other sizes", covers=["printed", "rejected"]),
}

TABLE = dict(S01=S01, S02=S02, S03=S03, S04=S04, S05=S05, X01=X01, X02=X02, D01=D01, U01=U01,
             M01=maze_jobs, M02=maze_jobs, M03=maze_jobs, M04=M04, M05=M05, M06=M06, R01=R01,
             N01=N01, N02=nono_jobs, N03=nono_jobs, N04=N04, N06=N06, N07=N07, P01=P01, E01=E01)


def jobs(prop, tier):
    return TABLE[prop](tier)
