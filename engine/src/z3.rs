//! Minimal FFI binding to libz3 (only what the term translator needs).
#![allow(non_camel_case_types)]
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

pub type Ctx = *mut c_void;
pub type Ast = *mut c_void;
pub type Sort = *mut c_void;
pub type Solver = *mut c_void;
pub type Model = *mut c_void;
pub type Config = *mut c_void;
pub type Symbol = *mut c_void;
pub type Params = *mut c_void;

extern "C" {
    pub fn Z3_mk_config() -> Config;
    pub fn Z3_del_config(c: Config);
    pub fn Z3_set_param_value(c: Config, id: *const c_char, v: *const c_char);
    pub fn Z3_mk_context(c: Config) -> Ctx;
    pub fn Z3_del_context(c: Ctx);
    pub fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    pub fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Symbol;
    pub fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
    pub fn Z3_mk_const(c: Ctx, s: Symbol, ty: Sort) -> Ast;
    pub fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: Sort) -> Ast;
    pub fn Z3_mk_true(c: Ctx) -> Ast;
    pub fn Z3_mk_false(c: Ctx) -> Ast;
    pub fn Z3_mk_eq(c: Ctx, l: Ast, r: Ast) -> Ast;
    pub fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    pub fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_solver_for_logic(c: Ctx, logic: Symbol) -> Solver;
    pub fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    pub fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    pub fn Z3_solver_reset(c: Ctx, s: Solver);
    pub fn Z3_solver_push(c: Ctx, s: Solver);
    pub fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    pub fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    pub fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    pub fn Z3_solver_check_assumptions(c: Ctx, s: Solver, n: c_uint, a: *const Ast) -> c_int;
    pub fn Z3_mk_bool_sort(c: Ctx) -> Sort;
    pub fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    pub fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    pub fn Z3_model_inc_ref(c: Ctx, m: Model);
    pub fn Z3_model_dec_ref(c: Ctx, m: Model);
    pub fn Z3_model_eval(c: Ctx, m: Model, t: Ast, completion: bool, out: *mut Ast) -> bool;
    pub fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    pub fn Z3_mk_params(c: Ctx) -> Params;
    pub fn Z3_params_inc_ref(c: Ctx, p: Params);
    pub fn Z3_params_set_uint(c: Ctx, p: Params, k: Symbol, v: c_uint);
    pub fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    pub fn Z3_get_error_code(c: Ctx) -> c_int;
    pub fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
}

pub fn cstr(s: &str) -> CString {
    CString::new(s).unwrap()
}

extern "C" fn on_err(c: Ctx, e: c_int) {
    unsafe {
        let m = Z3_get_error_msg(c, e);
        eprintln!("z3 error: {}", std::ffi::CStr::from_ptr(m).to_string_lossy());
    }
    std::process::exit(3);
}

pub fn new_context() -> Ctx {
    unsafe {
        let cfg = Z3_mk_config();
        Z3_set_param_value(cfg, cstr("model").as_ptr(), cstr("true").as_ptr());
        let c = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(c, Some(on_err));
        c
    }
}
