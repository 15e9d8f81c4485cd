//! Harnesses: each one states a property over symbolic inputs of the real crate.
pub mod alloc;
pub mod errors;
pub mod maze;
pub mod nodes;
pub mod nonogram;
pub mod png;
pub mod rng;
#[cfg(feature = "internals")]
pub mod structures;
pub mod sudoku;
pub mod sym;
pub mod text;

macro_rules! table {
    ($($(#[$c:meta])* $m:ident :: $f:ident,)*) => {
        /// Harnesses by name, for the replay binary
        pub static HARNESSES: &[(&str, extern "C" fn())] = &[$($(#[$c])* (stringify!($f), $m::$f),)*];
    };
}
table! {
    sudoku::h_sudoku_one,
    sudoku::h_sudoku_two,
    sudoku::h_sudoku_conflict,
    sudoku::h_sudoku_band,
    sudoku::h_sudoku_kept,
    sudoku::h_sudoku_size,
    sudoku::h_sudoku_parse,
    sudoku::h_sudoku_length,
    sudoku::h_sudoku_parse_length,
    sudoku::h_sudoku_print,
    #[cfg(feature = "internals")] structures::h_cover_solve,
    #[cfg(feature = "internals")] structures::h_cover_add,
    #[cfg(feature = "internals")] structures::h_cover_large,
    #[cfg(feature = "internals")] structures::h_cover_sparse,
    #[cfg(feature = "internals")] structures::h_set,
    #[cfg(feature = "internals")] structures::h_set_any,
    #[cfg(feature = "internals")] structures::h_set_large,
    #[cfg(feature = "internals")] structures::h_choose,
    #[cfg(feature = "internals")] structures::h_choose_large,
    maze::h_maze,
    maze::h_maze_large,
    maze::h_maze_print,
    maze::h_maze_print_size,
    maze::h_maze_solution,
    maze::h_maze_serde,
    maze::h_maze_serde_any,
    png::h_png,
    png::h_png_pixel,
    png::h_png_size,
    nonogram::h_nonogram_parse,
    nonogram::h_nonogram_solve,
    nonogram::h_nonogram_base,
    nonogram::h_nonogram_empty,
    nonogram::h_nonogram_huge,
    nonogram::h_nonogram_print,
    nonogram::h_nonogram_print_size,
    nonogram::h_nonogram_print_tall,
    nonogram::h_nonogram_fill,
    nonogram::h_nonogram_fill_size,
    errors::h_error_character,
    errors::h_error_size,
    errors::h_error_rule,
    errors::h_error_kinds,
}
