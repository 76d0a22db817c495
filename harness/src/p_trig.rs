//! C22: the deterministic trigonometry, compared with double precision over every argument of the domain.

use crate::core::*;
use ozz_animation_rs::math::*;

/// Every float whose bit pattern is a multiple of `step` and whose magnitude bits lie in a block.
const BLOCK: u32 = 1 << 22;

fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a == b && a == 0.0)
}

fn check_sin_cos(x: f32, worst: &mut (f64, f64)) -> Result<(), String> {
    let (s, c) = f32_sin_cos(x);
    let (rs, rc) = (x as f64).sin_cos();
    // The three-part argument reduction loses about 2e-11 of the argument.
    let tol = 2e-7 + x.abs() as f64 * 2.5e-11;
    let (es, ec) = ((s as f64 - rs).abs(), (c as f64 - rc).abs());
    worst.0 = worst.0.max(es - x.abs() as f64 * 4e-12);
    worst.1 = worst.1.max(ec - x.abs() as f64 * 4e-12);
    ensure!(es <= tol, "sin({:e}) = {} expected {}", x, s, rs);
    ensure!(ec <= tol, "cos({:e}) = {} expected {}", x, c, rc);
    // Near zero the sine keeps its relative precision.
    if x.abs() < 0.5 {
        ensure!(es <= 3e-7 * rs.abs() + 1e-45, "sin({:e}) = {:e} expected {:e}", x, s, rs);
    }
    ensure!(same(f32_sin(x), s) && same(f32_cos(x), c), "sin/cos({:e}) differ from sin_cos", x);
    let (ns, nc) = f32_sin_cos(-x);
    ensure!(same(ns, -s) && same(nc, c), "sin/cos({:e}): {:?} does not mirror {:?}", -x, (ns, nc), (s, c));
    Ok(())
}

fn check_arc(x: f32) -> Result<(), String> {
    let (a, c) = (f32_asin(x), f32_acos(x));
    let (ra, rc) = ((x as f64).asin(), (x as f64).acos());
    ensure!((a as f64 - ra).abs() <= 3e-7, "asin({:e}) = {} expected {}", x, a, ra);
    ensure!((c as f64 - rc).abs() <= 4e-7, "acos({:e}) = {} expected {}", x, c, rc);
    if x.abs() < 0.5 {
        ensure!((a as f64 - ra).abs() <= 4e-7 * ra.abs() + 1e-45, "asin({:e}) = {:e} expected {:e}", x, a, ra);
    }
    ensure!(same(f32_asin(-x), -a), "asin({:e}) = {} does not mirror {}", -x, f32_asin(-x), a);
    let (na, nc) = (f32_acos(-x) as f64, c as f64);
    ensure!((na + nc - std::f64::consts::PI).abs() <= 6e-7, "acos({:e}) = {} does not mirror {}", -x, na, nc);
    Ok(())
}

pub fn c22(ctx: &mut Ctx) {
    let step = ctx.pick(8u32, 1);
    let walk = |ctx: &mut Ctx, top: u32, f: &dyn Fn(f32) -> Result<(), String>| {
        let mut b = 0u32;
        while b <= top {
            let end = (b + (BLOCK - 1)).min(top);
            ctx.case(
                || format!("{:e} ..= {:e}, every float whose bit pattern is a multiple of {}", f32::from_bits(b), f32::from_bits(end), step),
                |st| {
                    let mut i = b;
                    while i <= end {
                        f(f32::from_bits(i))?;
                        if i % 65536 == 0 {
                            tick();
                        }
                        i += step;
                    }
                    f(f32::from_bits(end))?;
                    st.transitions += ((end - b) / step) as u64 + 1;
                    Ok(b as u64)
                },
            );
            b += BLOCK;
        }
    };
    ctx.suite("arc", |ctx| walk(ctx, 1.0f32.to_bits(), &check_arc));
    ctx.suite("sin-cos", |ctx| walk(ctx, 100_000.0f32.to_bits(), &|x| check_sin_cos(x, &mut (0.0, 0.0))));
    ctx.suite("edges", |ctx| {
        ctx.case(
            || "exact values and clamping".into(),
            |_| {
                use std::f32::consts::*;
                ensure!(f32_sin(0.0) == 0.0 && f32_cos(0.0) == 1.0 && f32_asin(0.0) == 0.0, "values at zero");
                ensure!(f32_sin_cos(-0.0).0 == 0.0 && f32_sin_cos(-0.0).1 == 1.0, "values at negative zero");
                ensure!(f32_asin(1.0) == FRAC_PI_2 && f32_acos(1.0) == 0.0, "values at one");
                for x in [1.0f32.next_up(), 1.0001, 1.5, 2.0, 1e10, f32::MAX, f32::INFINITY] {
                    ensure!(f32_asin(x) == f32_asin(1.0) && f32_asin(-x) == f32_asin(-1.0), "asin(±{}) is not clamped", x);
                    ensure!(f32_acos(x) == f32_acos(1.0) && f32_acos(-x) == f32_acos(-1.0), "acos(±{}) is not clamped", x);
                }
                ensure!((f32_acos(-1.0) - PI).abs() < 4e-7, "acos(-1)");
                Ok(1)
            },
        );
    });
    // Around every multiple of a quarter period within the reduction's exact range.
    ctx.suite("quadrants", |ctx| {
        for q in 0..64u32 {
            ctx.case(
                || format!("every multiple of pi/4 congruent to {} and its 8 neighbours, up to 2^16 quadrants", q),
                |st| {
                    let mut k = q;
                    let mut w = (0.0, 0.0);
                    while k < 1 << 17 {
                        let m = (k as f64 * std::f64::consts::FRAC_PI_4) as f32;
                        for d in -4i32..=4 {
                            let b = m.to_bits() as i32 + d;
                            if b >= 0 {
                                check_sin_cos(f32::from_bits(b as u32), &mut w)?;
                            }
                        }
                        k += 64;
                        st.transition();
                    }
                    Ok(q as u64)
                },
            );
        }
    });
}
