//! Hand-written bindings to the part of the Z3 C API the engine uses.
#![allow(non_camel_case_types, dead_code)]
use std::os::raw::{c_char, c_int, c_uint, c_void};
pub type Ctx = *mut c_void;
pub type Ast = *mut c_void;
pub type Sort = *mut c_void;
pub type Solver = *mut c_void;
pub type Model = *mut c_void;
pub type Config = *mut c_void;
pub type Params = *mut c_void;
pub type Symbol = *mut c_void;
#[link(name = "z3")]
extern "C" {
    pub fn Z3_mk_config() -> Config;
    pub fn Z3_del_config(c: Config);
    pub fn Z3_set_param_value(c: Config, k: *const c_char, v: *const c_char);
    pub fn Z3_mk_context(c: Config) -> Ctx;
    pub fn Z3_del_context(c: Ctx);
    pub fn Z3_inc_ref(c: Ctx, a: Ast);
    pub fn Z3_dec_ref(c: Ctx, a: Ast);
    pub fn Z3_set_error_handler(c: Ctx, h: extern "C" fn(Ctx, c_int));
    pub fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    pub fn Z3_get_full_version() -> *const c_char;
    pub fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Symbol;
    pub fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Symbol;
    pub fn Z3_mk_bool_sort(c: Ctx) -> Sort;
    pub fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    pub fn Z3_mk_const(c: Ctx, s: Symbol, t: Sort) -> Ast;
    pub fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    pub fn Z3_mk_true(c: Ctx) -> Ast;
    pub fn Z3_mk_false(c: Ctx) -> Ast;
    pub fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    pub fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_fpa_sort_64(c: Ctx) -> Sort;
    pub fn Z3_mk_fpa_round_nearest_ties_to_even(c: Ctx) -> Ast;
    pub fn Z3_mk_fpa_round_toward_zero(c: Ctx) -> Ast;
    pub fn Z3_mk_fpa_round_toward_positive(c: Ctx) -> Ast;
    pub fn Z3_mk_fpa_round_toward_negative(c: Ctx) -> Ast;
    pub fn Z3_mk_fpa_round_nearest_ties_to_away(c: Ctx) -> Ast;
    pub fn Z3_mk_fpa_to_fp_bv(c: Ctx, a: Ast, s: Sort) -> Ast;
    pub fn Z3_mk_fpa_to_fp_signed(c: Ctx, rm: Ast, a: Ast, s: Sort) -> Ast;
    pub fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, rm: Ast, a: Ast, s: Sort) -> Ast;
    pub fn Z3_mk_fpa_to_ubv(c: Ctx, rm: Ast, a: Ast, w: c_uint) -> Ast;
    pub fn Z3_mk_fpa_to_sbv(c: Ctx, rm: Ast, a: Ast, w: c_uint) -> Ast;
    pub fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_fpa_round_to_integral(c: Ctx, rm: Ast, a: Ast) -> Ast;
    pub fn Z3_mk_fpa_add(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_fpa_sub(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_fpa_mul(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_fpa_div(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_solver(c: Ctx) -> Solver;
    pub fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    pub fn Z3_mk_solver_for_logic(c: Ctx, l: Symbol) -> Solver;
    pub fn Z3_mk_tactic(c: Ctx, n: *const c_char) -> *mut c_void;
    pub fn Z3_tactic_inc_ref(c: Ctx, t: *mut c_void);
    pub fn Z3_mk_solver_from_tactic(c: Ctx, t: *mut c_void) -> Solver;
    pub fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    pub fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    pub fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    pub fn Z3_solver_push(c: Ctx, s: Solver);
    pub fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    pub fn Z3_solver_reset(c: Ctx, s: Solver);
    pub fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    pub fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    pub fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    pub fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    pub fn Z3_model_inc_ref(c: Ctx, m: Model);
    pub fn Z3_model_dec_ref(c: Ctx, m: Model);
    pub fn Z3_model_eval(c: Ctx, m: Model, a: Ast, compl: bool, out: *mut Ast) -> bool;
    pub fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
    pub fn Z3_get_bool_value(c: Ctx, a: Ast) -> c_int;
    pub fn Z3_mk_params(c: Ctx) -> Params;
    pub fn Z3_params_inc_ref(c: Ctx, p: Params);
    pub fn Z3_params_set_uint(c: Ctx, p: Params, k: Symbol, v: c_uint);
}
