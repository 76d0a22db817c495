//! C24: the state spaces of the other properties, explored again under an adversarial allocator.

use crate::core::*;
use crate::*;

pub fn c24(ctx: &mut Ctx) {
    ctx.mem = true;
    let level = ctx.level;
    let spaces: [(&'static str, u8, fn(&mut Ctx)); 16] = [
        ("C01 ", 0, p_sampling::c01),
        ("C02 ", 0, p_sampling::c02),
        ("C03 ", 0, p_sampling::c03),
        ("C04 ", 0, p_sampling::c04),
        ("C06 ", 0, p_assets::c06),
        ("C07 ", 0, p_assets::c07),
        ("C08 ", 0, p_assets::c08),
        ("C09 ", 0, p_skeleton::c09),
        ("C10 ", 0, p_skeleton::c10),
        ("C11 ", 0, p_blend::c11),
        ("C12 ", 0, p_jobs::c12),
        ("C13 ", 0, p_tracks::c13),
        ("C17 ", 0, p_blend::c17),
        ("C18 ", 0, p_skin::c18),
        ("C21 ", 0, p_flavour::c21),
        ("C23 ", 0, p_jobs::c23),
    ];
    for (prefix, l, run) in spaces {
        ctx.prefix = prefix;
        ctx.level = l.max(level.saturating_sub(1).min(1));
        let t = std::time::Instant::now();
        run(ctx);
        if std::env::var_os("OZZMC_TIMES").is_some() && ctx.shard == 0 {
            eprintln!("{} {:?}", prefix, t.elapsed());
        }
    }
    // Jobs that own no memory but their track: the crossing counts only matter to the deepest exploration.
    if level >= 2 {
        ctx.level = 0;
        for (prefix, run) in [("C14 ", p_tracks::c14 as fn(&mut Ctx)), ("C15 ", p_ik::c15), ("C16 ", p_ik::c16)] {
            ctx.prefix = prefix;
            run(ctx);
        }
    }
    ctx.level = level;
    ctx.prefix = "";
}
