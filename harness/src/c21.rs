//! C21: thresholds
use crate::{model::*, sym::*};
use fbas_analyzer::simulation::qsc::{calculate_67p_threshold, calculate_x_threshold};
fn two_thirds(lo: u64, hi: u64) {
    let n = lo + pick(hi - lo + 1); reach(1);
    let t = calculate_67p_threshold(n as usize) as u64; obs(t);
    // the least t with 3t > 2n
    check(3 * t >= 2 * n + 1 && 3 * (t - 1) < 2 * n + 1, 1);
    check(t >= 1 && t <= n, 2);
}
/// a share of k / d
fn share(n: u64, d: u64, scale: f64) {
    let k = pick(d + 1); reach(1);
    let x = k as f64 / scale;
    let t = calculate_x_threshold(n as usize, x) as u64; obs(t);
    check(t >= 1 && t <= n.max(1), 3);
    if scale == d as f64 && d.is_power_of_two() { // the product is exact
        check(t * d >= n * k, 4);
        check(t == 1 || (t - 1) * d < n * k, 5);
    } else { // up to rounding
        check(t as f64 >= x * n as f64 - 1e-9, 6);
        check(t == 1 || ((t - 1) as f64) < x * n as f64 + 1e-9, 7);
    }
}
/// a higher share or more nodes never lower the threshold
fn monotone() {
    let n = pick(24) as usize; let k = pick(20) as f64; reach(1);
    let t = calculate_x_threshold(n, k / 20.); obs(t as u64);
    check(calculate_x_threshold(n + 1, k / 20.) >= t && calculate_x_threshold(n, (k + 1.) / 20.) >= t, 8);
    if n > 0 { check(calculate_67p_threshold(n + 1) >= calculate_67p_threshold(n) && calculate_67p_threshold(n + 1) <= calculate_67p_threshold(n) + 1, 9) }
}
/// all numbers of that many bits at once
fn symbolic(bits: u32) {
    let n = 1 + inp(bits); reach(1);
    let t = calculate_67p_threshold(n as usize) as u64; obs(t);
    check_b((3 * t >= 2 * n + 1) as u64 & (3 * t < 2 * n + 4) as u64 & (t >= 1) as u64 & (t <= n) as u64, 10);
}
/// shares, all numbers of nodes of that many bits at once
fn sym_share(bits: u32, parts: u64) {
    let n = inp(bits); let k = pick(parts + 1); reach(1);
    let t = calculate_x_threshold(n as usize, k as f64 / parts as f64) as u64; obs(t);
    check_b((t * parts >= n * k) as u64 & ((t == 1) as u64 | ((t - 1) * parts < n * k) as u64) & (t >= 1) as u64, 11);
}
/// all shares in 1024ths of n nodes
fn sym_parts(n: usize) {
    let k = within(11, 0, 1024); reach(1);
    let t = calculate_x_threshold(n, k as f64 / 1024.) as u64; obs(t);
    check_b((t * 1024 >= n as u64 * k) as u64 & ((t == 1) as u64 | ((t - 1) * 1024 < n as u64 * k) as u64) & (t >= 1) as u64, 12);
}
/// all shares in units of 2^-bits of n nodes; the product is exact
fn fine(n: usize, bits: u32) {
    let k = within(bits + 1, 0, 1 << bits); reach(1);
    let t = calculate_x_threshold(n, k as f64 / (1u64 << bits) as f64) as u64; obs(t);
    check_b((t << bits >= n as u64 * k) as u64 & ((t == 1) as u64 | ((t - 1) << bits < n as u64 * k) as u64) & (t >= 1) as u64, 13);
}
entries! {
    c21_67p => symbolic(14);
    c21_67p_16 => symbolic(16);
    c21_67p_20 => symbolic(20);
    c21_67p_far => { let k = pick(8); two_thirds((1 << (14 + 2 * k)) - 64, (1 << (14 + 2 * k)) + 64) };
    c21_share => sym_share(8, 16);
    c21_share12 => sym_share(12, 64);
    c21_share16 => sym_share(16, 64);
    c21_parts => { let n = pick(17); sym_parts(n as usize) };
    c21_parts64 => { let n = 17 + pick(48); sym_parts(n as usize) };
    c21_fine => { let n = pick(9); fine(n as usize, 44) };
    c21_percent => { let n = pick(101); share(n, 100, 100.) };
    c21_monotone => monotone();
}
nomenu!();
