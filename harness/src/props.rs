use crate::core::*;

#[derive(Default)]
pub struct PostResult {
    pub evaluations: u64,
    pub outcomes: Vec<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub suites: Vec<(String, u64)>,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx),
    /// Bounds used by the quick tier (thorough uses level 3).
    pub quick_level: u8,
    /// Run as one process (whole-process effects).
    pub single: bool,
    pub hang_secs: u64,
    pub post: Option<fn(&str) -> Result<PostResult, String>>,
}

const fn p(id: &'static str, level: &'static str, rule: &'static str, run: fn(&mut Ctx)) -> Prop {
    Prop { id, level, rule, assumptions: &[], run, quick_level: 2, single: false, hang_secs: 40, post: None }
}

pub fn all() -> Vec<Prop> {
    use crate::*;
    vec![
        p("C01", "model_checking", "a case is one animation; its state space (contexts reachable by sampling at an alphabet of ratios) is searched breadth-first on the real code; non-trivial = distinct set of reached states", p_sampling::c01),
        p("C02", "exploration", "a case is one animation sampled at a dense set of ratios; non-trivial = distinct pose", p_sampling::c02),
        p("C03", "model_checking", "a case is a set of animations, a context capacity and a first operation; operation sequences are searched breadth-first", p_sampling::c03),
        p("C04", "model_checking", "a case is an animation, a capacity and a playback history; every snapshot mechanism and continuation is executed; non-trivial = distinct context state", p_sampling::c04),
        p("C05", "exploration", "a case is a set of compressed keys decoded by both decoders; non-trivial = distinct decoded values", p_codec::c05),
        p("C06", "exploration", "a case is an asset, a byte order and a reader behaviour; non-trivial = distinct loaded content", p_assets::c06),
        p("C07", "fault_enumeration", "a case is a valid archive with one injected fault (truncation point, read failure, corrupted field); every fault position is enumerated; non-trivial = distinct (position class, result)", p_assets::c07),
        p("C08", "exploration", "a case is an asset taken through every serialisation form; non-trivial = distinct restored content", p_assets::c08),
        p("C09", "exploration", "a case is a hierarchy with transforms and root; every from/to/excluded combination is run; non-trivial = distinct output matrices", p_skeleton::c09),
        p("C10", "exploration", "a case is a skeleton; all queries and traversals are compared with the hierarchy; non-trivial = distinct skeleton answers", p_skeleton::c10),
        p("C11", "exploration", "a case is a set of layers, weights, joint weights and a threshold blended into an output; non-trivial = distinct blended pose", p_blend::c11),
        p("C12", "exploration", "a case is a job with some buffer sizes; every presence and size of the others is validated and run; non-trivial = distinct case outcome", p_jobs::c12),
        p("C13", "exploration", "a case is a track sampled at all key times, their neighbours, midpoints and beyond the ends; non-trivial = distinct value", p_tracks::c13),
        Prop { quick_level: 0, ..p("C14", "exploration", "a case is a track, a threshold and a window; the whole, cut, mirrored and shifted windows are run; non-trivial = distinct edge list", p_tracks::c14) },
        p("C15", "exploration", "a case is a chain; every target, pole, twist, softening and weight of the grid is solved and applied; non-trivial = distinct corrections", p_ik::c15),
        p("C16", "exploration", "a case is a joint, a forward axis and an offset; every target, up, pole, twist and weight of the grid is solved and applied; non-trivial = distinct corrections", p_ik::c16),
        p("C17", "exploration", "a case is a set of motion deltas and weights; non-trivial = distinct blended motion", p_blend::c17),
        p("C18", "exploration", "a case is a skinning job shape; every index and weight tuple of the alphabets is one vertex; non-trivial = distinct output vertices", p_skin::c18),
        Prop { post: Some(p_diff::post), single: true, quick_level: 0, assumptions: &["the processor running the check has AVX2 and FMA, or that variant is left out", "all NaNs are one value", "iteration order of the name map and serialised bytes are compared between builds and processes for one target only"], ..p("C19", "exploration", "a case is one job or loader input run by every build variant; the bits of all outputs must agree; non-trivial = distinct outcome", p_diff::c19) },
        p("C20", "model_checking", "a case is a set of threads with one or two jobs each; every order of lock acquisitions is executed; a state is what every thread has locked so far, the locks and the buffer contents", p_locks::c20),
        p("C21", "exploration", "a case is a job and its data; every buffer and ownership flavour runs it; non-trivial = distinct output", p_flavour::c21),
        Prop { quick_level: 0, ..p("C22", "exploration", "a case is a block of consecutive floats; every argument in it (quick: every eighth) is evaluated; non-trivial = one per block", p_trig::c22) },
        p("C23", "model_checking", "a case is a job and a first operation; every operation sequence up to the depth is executed; a state is the accumulated result history", p_jobs::c23),
        Prop { quick_level: 1, ..p("C24", "model_checking", "a case of another property's state space, run again under an allocator that fills, fences, misaligns and quarantines every block; non-trivial = distinct outcome", p_memory::c24) },
        p("C25", "exploration", "a case is one set of operand values or one first lane replacement; every lane, neighbour content and further operand is run; non-trivial = distinct result", p_soa::c25),
        p("C26", "fault_enumeration", "a case is a serialised document with one fault (cut, part missing, doubled, replaced, list or size changed); every fault position is enumerated; non-trivial = distinct (fault class, verdict)", p_docs::c26),
        p("C27", "model_checking", "a case is a job and a first operation; every sequence of parameter operations up to the depth is executed and every getter read; a state is what all getters answer", p_params::c27),
    ]
}
