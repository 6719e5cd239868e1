//! What each property's check generates, runs and counts.
use crate::tok::{L0, L1};
use crate::util::*;
use crate::wa::{self, op, Store};
use crate::wr;
use crate::wp;
use crate::wf;
use crate::wt;
use crate::wd;
use crate::wg;
use crate::ww;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum W { A, Store, R, RStore, Walk, Pair, PStore, Fault, Ill, RFault, Tuple, WStore, Kind, KStore, Giant, GStore }

pub struct Spec {
    pub id: &'static str,
    /// Worlds and how often each is used.
    pub worlds: &'static [(W, usize)],
    /// Operations (world A numbering) that are generated more often.
    pub focus: &'static [u16],
    /// The same for world R.
    pub rfocus: &'static [u16],
    /// A case is non-trivial when one of these features was exercised (empty: any edit on at least 8 nodes).
    pub feats: &'static [usize],
    pub rule: &'static str,
    /// Cases in the quick and the thorough tier.
    pub cases: (usize, usize),
}

use op::*;
const RED: &[u16] = &[r::PUSH_F, r::PUSH_B, r::PREP, r::APP, r::INS_P, r::INS_N, r::DETACH, r::POP_F, r::POP_B, r::EXTEND];
const EDITS: &[u16] = &[PUSH_F, PUSH_B, PREP, APP, INS_P, INS_N, DETACH, POP_F, POP_B, ABANDON, F2N];
const fn sp(id: &'static str, worlds: &'static [(W, usize)], focus: &'static [u16], feats: &'static [usize], rule: &'static str) -> Spec {
    Spec { id, worlds, focus, rfocus: &[], feats, rule, cases: (240_000, 12_000_000) }
}
const fn spr(id: &'static str, worlds: &'static [(W, usize)], focus: &'static [u16], rfocus: &'static [u16], feats: &'static [usize], rule: &'static str) -> Spec {
    Spec { id, worlds, focus, rfocus, feats, rule, cases: (160_000, 8_000_000) }
}
const A: &[(W, usize)] = &[(W::A, 10), (W::Kind, 1), (W::Giant, 0)];
const AR: &[(W, usize)] = &[(W::A, 8), (W::R, 4), (W::Kind, 1), (W::Giant, 0)];
const P: &[(W, usize)] = &[(W::Pair, 1), (W::Giant, 0)];
const FA: &[(W, usize)] = &[(W::Fault, 1), (W::RFault, 1)];
const IL: &[(W, usize)] = &[(W::Ill, 1)];
const WK: &[(W, usize)] = &[(W::Walk, 1), (W::Giant, 0)];
const R_: &[(W, usize)] = &[(W::R, 10), (W::Kind, 1), (W::Giant, 0)];
mod w { pub use crate::ww::op::*; }
mod r { pub use crate::wr::op::*; }

pub static SPECS: &[Spec] = &[
    sp("C01", A, EDITS, &[7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 40, 290], "a history with at least one edit (push, pop, prepend, append, sibling insertion, detach, abandon)"),
    spr("C02", AR, EDITS, RED, &[107, 108, 109, 110, 111, 112, 113, 114, 115, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 40, 39, 290, 291], "a history with at least one edit or Size computation"),
    spr("C03", AR, &[INS_P, INS_N, DETACH, PREP, APP, ENDS, POP_F, POP_B, F2N, EDIT_IT], RED, &[107, 108, 109, 110, 111, 112, 113, 114, 115, 7, 8, 9, 10, 11, 12, 13, 14, 15, 34, 290, 291], "a history with at least one edit or a consumption of children from one end"),
    sp("C04", A, &[INTO_ITER, BFS_RE, BFS_PART, ABANDON, DROP, WALK, OPER, EDIT_IT], &[22, 23, 24, 16, 21, 29, 31, 290], "a history in which values change hands (owning iteration, owning traversal, abandon, drop, walker, operators)"),
    sp("C05", A, &[INTO_ITER, BFS_RE, BFS_PART, ABANDON, DROP, WALK, OPER, EDIT_IT, PILE_T, PILE_F, DETACH, POP_F], &[60, 61, 63, 64], "a history with a contiguous block of more than two nodes, a block released, or a partially consumed owning iteration"),
    spr("C06", AR, &[DETACH, POP_F, POP_B, PUSH_B, APP, PREP, F2N, WALK, RC, INTO_ITER], &[r::INTO, r::T2RC, r::POP_F, r::DETACH], &[113, 114, 115, 125, 126, 130, 8, 10, 13, 14, 15, 22, 29, 30, 40], "a history that moves subtrees (pop, detach, push, append, owning iteration, walker, shared handle)"),
    spr("C07", AR, &[ITER, INTO_ITER, EDIT_IT, PREP, APP, INS_N], &[r::IT_NEW, r::IT_STEP, r::LOOP], &[wr::F_IT_EXACT, 68, 63], "iteration over more than one child, or a partially consumed owning iterator"),
    spr("C08", AR, &[EDIT_IT], &[r::LOOP, r::LOOP], &[66], "an edit made while iterating mutably"),
    sp("C11", A, &[OPER], &[67], "an operator applied to two trees or forests"),
    sp("C12", A, &[BFS_CHK, BFS_MUT], &[65, 290], "a breadth-first traversal of more than three nodes"),
    sp("C13", A, &[BFS_RE, BFS_PART, BFS_MAP], &[23, 24, 25, 290], "a tree rebuilt from a breadth-first traversal or an abandoned owning traversal"),
    spr("C14", AR, &[CLONE, DCLONE, DCLONE_F], &[r::DCLONE, r::T2RC], &[128, 17, 18, 19], "a clone taken, then edits on either side"),
    spr("C28", AR, &[REFUSE, ABANDON], &[r::REFUSE, r::POP_F, r::DETACH], &[135, 32], "a sibling operation attempted on a root"),
    spr("C33", AR, &[PILE_T, PILE_F, TUP_T, TUP_F, BFS_RE, CLONE, DETACH, POP_F, POP_B, DROP], &[r::DROP, r::WDROP, r::DOWN, r::TBFS], &[60, 61, 290], "a contiguous block of more than two nodes, or one released"),
    spr("C34", &[(W::Store, 5), (W::RStore, 3), (W::WStore, 1), (W::PStore, 1), (W::KStore, 1), (W::GStore, 0)], &[PILE_T, PILE_F, SCAT, TUP_T, TUP_F, ABANDON, TEXT], &[r::DOWN, r::UP, r::INTO, r::T2RC], &[107, 108, 109, 110, 111, 112, 113, 114, 115, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 40, 193, 215, 216, 290], "a history with at least one edit, run with both storage kinds"),
    spr("C21", R_, &[], RED, &[107, 108, 109, 110, 111, 112, 113, 114, 115, 129, 291], "a history with at least one edit through a shared handle"),
    spr("C22", R_, &[], &[r::DROP, r::DMANY, r::DETACH, r::POP_F, r::POP_B, r::FRONT, r::CHILD, r::TDROP], &[wr::F_SURV, 102, 137, 291], "handles dropped, or a child that survives its parent as a root"),
    spr("C23", R_, &[], &[r::DOWN, r::UP, r::WDROP, r::DROP, r::TDROP, r::T2RC, r::INTO, r::TBFS, r::BORROW], &[wr::F_WEAK_NONE, wr::F_WEAK_SOME], "a weak handle upgraded (all are, after every step)"),
    spr("C24", R_, &[], &[r::DROP, r::DOWN, r::WDROP, r::IT_NEW, r::IT_STEP, r::DETACH, r::POP_F, r::INTO, r::T2RC], &[wr::F_SURV, wr::F_WEAK_NONE, wr::F_IT_DIST, 61, 291], "a child survives its parent, a weak handle outlives its node, an iterator runs on after a disturbance, or a block is released"),
    spr("C25", R_, &[], &[r::BORROW, r::BORROW, r::FRONT, r::CHILD, r::PARENT], &[wr::F_CONFLICT, wr::F_NOCONFLICT], "an access attempted while a node's data is borrowed"),
    spr("C26", R_, &[], &[r::INTO, r::T2RC, r::INTO_REF, r::TMOVE, r::TPOP, r::TBFS, r::TABAN, r::TDROP, r::DOWN, r::DROP], &[wr::F_ROUND, 127, 291], "a conversion between exclusive and shared ownership"),
    spr("C27", R_, &[], &[r::IT_NEW, r::IT_STEP, r::IT_STEP, r::IT_CLONE, r::LOOP, r::DETACH, r::POP_F, r::POP_B, r::INS_N, r::INS_P, r::DROP, r::DMANY], &[wr::F_IT_DIST, wr::F_IT_EXACT], "an iterator advanced between edits"),
    sp("C15", WK, &[], &[ww::F_BRANCH], "a walk over more than 3 nodes"),
    sp("C16", WK, &[], &[ww::F_JUMP, ww::F_PAST], "a jump that landed, or a step from a position past the last sibling"),
    sp("C17", WK, &[], &[ww::F_MID, 179], "a walker turned back from the middle of a walk, or dropped"),
    sp("C18", P, &[], &[201, 202, 203, 204, 205, 206, 207, 208, 209, 210], "two structures, one made from the other by at least one change of shape"),
    sp("C19", P, &[], &[wp::F_NE, wp::F_EQ], "two structures compared, with all their kinds and some of their inner nodes"),
    sp("C20", P, &[], &[wp::F_NE, wp::F_EQ], "two structures hashed and one of them rebuilt by another route"),
    spr("C29", FA, &[], &[r::DROP, r::DMANY, r::DROP, r::TDROP, r::EXTEND, r::DCLONE, r::IT_NEW, r::IT_STEP, r::IT_DROP, r::SET, r::TEXT, r::DOWN, r::UP, r::FRONT, r::CHILD], &[wf::F_INJ], "a fault struck in the middle of an operation"),
    sp("C31", &[(W::A, 3), (W::R, 3), (W::Walk, 1), (W::Pair, 1), (W::Fault, 1), (W::RFault, 1), (W::Ill, 1), (W::Kind, 1), (W::Giant, 0)], &[TEXT, BFS_CHK, REFUSE], &[], "a history of at least one operation (on top of the initial structures), run with both configurations"),
    sp("C09", &[(W::Tuple, 1)], &[], &[5, 6], "a tree or forest built from a tuple expression, then edited and dropped"),
    sp("C10", &[(W::Tuple, 1)], &[], &[wt::F_VISIT], "a tuple of at least three nodes visited in all ways"),
    sp("C30", IL, &[], &[wf::F_ILL], "a build from breadth-first input whose sizes do not match its items"),
];
pub fn spec(id: &str) -> Option<&'static Spec> { SPECS.iter().find(|s| s.id == id) }

/// Relative frequency of world A's operations.
const BASE: [usize; 42] = [2, 2, 6, 8, 6, 2, 2, 5, 5, 5, 5, 6, 6, 7, 4, 4, 2, 3, 2, 2, 2, 4, 3, 2, 2, 2, 2, 2, 4, 2, 2, 3, 1, 2, 2, 2, 1, 1, 2, 1, 3, 1];

const RBASE: [usize; 41] = [8, 4, 8, 4, 4, 4, 7, 5, 5, 4, 4, 5, 5, 6, 4, 4, 3, 4, 3, 3, 4, 7, 2, 1, 3, 3, 3, 1, 2, 2, 2, 3, 3, 1, 1, 1, 1, 2, 3, 1, 0];

/// Relative frequency of the walk operations, for C15, C16, C17.
const WBASE: [[usize; 14]; 3] = [[6, 8, 8, 0, 2, 0, 0, 0, 2, 1, 8, 8, 1, 1], [4, 8, 4, 8, 2, 12, 12, 6, 2, 1, 2, 6, 1, 1], [8, 4, 4, 2, 1, 4, 4, 2, 10, 8, 2, 4, 2, 2]];

pub fn pick_op(rng: &mut Rng, w: &[usize]) -> u16 {
    let total: usize = w.iter().sum();
    let mut k = rng.below(total);
    for (i, x) in w.iter().enumerate() { if k < *x { return i as u16 } k -= x }
    0
}
pub fn gen(sp: &Spec, seed: u64, i: u64) -> Case {
    let mut h = 0u64;
    for b in sp.id.bytes() { h = crate::tok::mix(h, b as u64) }
    let mut rng = Rng::new(crate::tok::mix(crate::tok::mix(h, seed), i));
    let total: usize = sp.worlds.iter().map(|w| w.1).sum();
    let mut k = rng.below(total);
    let mut wi = 0;
    for (j, x) in sp.worlds.iter().enumerate() { if k < x.1 { wi = j; break } k -= x.1 }
    // very large trees are very slow
    if let (Some(g), true) = (sp.worlds.iter().position(|w| matches!(w.0, W::Giant | W::GStore)), i % 2000 == 999) { wi = g }
    let mut c = Case { params: [wi as u16, rng.below(32) as u16, rng.next() as u16, rng.next() as u16], ops: vec![] };
    // big worlds are slower: keep them rare
    if c.params[1] % 16 == 15 && !rng.chance(1, 2) { c.params[1] -= 1 }
    match sp.worlds[wi].0 {
        W::A | W::Store => {
            let mut w = BASE;
            for f in sp.focus { w[*f as usize] = w[*f as usize] * 4 + 4 }
            // swarm: each case leaves out some operations
            if rng.chance(1, 2) { for x in w.iter_mut() { if rng.chance(1, 3) { *x = 0 } } for f in sp.focus { if rng.chance(1, 2) { w[*f as usize] = 10 } } w[SCAT as usize] += 1; }
            let n = match rng.below(10) { 0..=2 => 3 + rng.below(6), 3..=7 => 8 + rng.below(20), 8 => 20 + rng.below(40), _ => 2 + rng.below(3) };
            for j in 0..n {
                let code = if j < 2 && rng.chance(3, 4) { *rng.pick(&[SCAT, PILE_T, PILE_F, PILE_T, TUP_T]) } else { pick_op(&mut rng, &w) };
                c.ops.push([code, rng.next() as u16, rng.next() as u16, rng.next() as u16, rng.next() as u16]);
            }
        }
        W::Giant | W::GStore => c.ops.push([0; 5]),
        W::Kind | W::KStore => {
            let shared = sp.rfocus.len() > 0 && sp.focus.is_empty();
            let mut w = [6, 5, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 3, 2, 3, 2, 3, 2, 2, 2];
            if shared { w[12] = 30 }
            for _ in 0..2 + rng.below(14) { c.ops.push([pick_op(&mut rng, &w), rng.next() as u16, rng.next() as u16, rng.next() as u16, rng.next() as u16]) }
        }
        W::Pair | W::PStore => {
            for _ in 0..match rng.below(8) { 0 => 0, 1..=4 => 1, 5 => 2, 6 => 3, _ => 4 } {
                c.ops.push([rng.below(wp::OPS.len()) as u16, rng.next() as u16, rng.next() as u16, rng.next() as u16, 0]);
            }
        }
        W::Tuple => {
            if wt::len() > 0 && c.params[1] / 16 % 2 == 1 && wt::table::<L1>().is_empty() { c.params[1] -= 16 }
            if sp.id == "C10" {
                for _ in 0..1 + rng.below(3) { c.ops.push([wt::VISIT, rng.next() as u16, rng.next() as u16, 0, 0]) }
            } else {
                let mut n = 1 + rng.below(2);
                while n > 0 { n -= 1; c.ops.push([*rng.pick(&[TUP_T, TUP_T, TUP_F]), rng.below(wt::len().max(8)) as u16, 0, 0, 0]) }
                for _ in 0..rng.below(12) {
                    let code = pick_op(&mut rng, &BASE);
                    c.ops.push([code, rng.next() as u16, rng.next() as u16, rng.next() as u16, rng.next() as u16]);
                }
            }
        }
        W::Walk | W::WStore => {
            let wb = &WBASE[match sp.id { "C15" => 0, "C16" => 1, "C17" => 2, _ => rng.below(3) }];
            let n = 1 + rng.below(4);
            let a_op = |rng: &mut Rng| loop { let o = pick_op(rng, &BASE); if o != WALK { return o } };
            for j in 0..n {
                let code = if j < 2 && rng.chance(3, 4) { *rng.pick(&[SCAT, PILE_T, PILE_F, PILE_F, TUP_T, TUP_F]) } else { a_op(&mut rng) };
                c.ops.push([code, rng.next() as u16, rng.next() as u16, rng.next() as u16, rng.next() as u16]);
            }
            let mix = rng.below(3) * 4;
            let most = if rng.chance(1, 4) { 60 } else { 20 };
            let n = 4 + rng.below(most);
            for _ in 0..n {
                let code = if rng.below(40) < mix { a_op(&mut rng) } else { w::W0 + pick_op(&mut rng, wb) };
                c.ops.push([code, rng.next() as u16, rng.next() as u16, rng.next() as u16, rng.next() as u16]);
            }
        }
        W::Fault | W::Ill => {
            let fault = sp.worlds[wi].0 == W::Fault;
            let n = 2 + rng.below(4);
            for j in 0..n {
                let code = if j < 2 { *rng.pick(&[SCAT, PILE_T, PILE_F, PILE_T, TUP_T, TUP_F]) } else { pick_op(&mut rng, &BASE) };
                c.ops.push([code, rng.next() as u16, rng.next() as u16, rng.next() as u16, rng.next() as u16]);
            }
            let n = 1 + rng.below(8);
            for _ in 0..n {
                let code = if rng.chance(1, 3) { pick_op(&mut rng, &BASE) } else if fault { wf::op::B + rng.below(wf::op::NFAULT as usize) as u16 } else { wf::op::ILL_T + *rng.pick(&[0u16, 0, 0, 1, 1, 1, 2, 3, 4, 5]) };
                c.ops.push([code, rng.next() as u16, rng.next() as u16, rng.next() as u16, rng.next() as u16]);
            }
        }
        W::R | W::RStore | W::RFault => {
            let mut w = RBASE;
            for f in sp.rfocus { w[*f as usize] = w[*f as usize] * 3 + 3 }
            if rng.chance(1, 2) { for x in w.iter_mut() { if rng.chance(1, 3) { *x = 0 } } for f in sp.rfocus { if rng.chance(1, 2) { w[*f as usize] = 10 } } w[0] += 1; }
            let n = match rng.below(10) { 0..=2 => 3 + rng.below(6), 3..=7 => 8 + rng.below(20), 8 => 20 + rng.below(50), _ => 2 + rng.below(3) };
            for j in 0..n {
                let code = if j < 1 { r::NEW } else { pick_op(&mut rng, &w) };
                c.ops.push([code, rng.next() as u16, rng.next() as u16, rng.next() as u16, rng.next() as u16]);
            }
            // user code that uses the trees it is called from
            let often = match sp.id { "C24" => 4, "C22" | "C34" => 6, "C21" | "C23" | "C31" => 8, _ => 0 };
            if often > 0 && rng.chance(1, often) {
                if rng.chance(1, 2) { c.ops.truncate(6) }
                c.ops.push([r::REENTER, rng.next() as u16, rng.next() as u16, rng.next() as u16, rng.next() as u16]);
            }
        }
    }
    c
}

pub fn run_world(sp: &Spec, case: &Case, cx: &mut Cx) -> R<()> {
    let w = sp.worlds[case.params[0] as usize % sp.worlds.len()].0;
    let lay = case.params[1] / 16 % 2;
    macro_rules! lay { ($f:ident, $($a:expr),*) => { if lay == 0 { $f::<L0>($($a),*) } else { $f::<L1>($($a),*) } } }
    use crate::wa::run as runa;
    use crate::wr::run as runr;
    macro_rules! twice { ($f:ident) => {{
        lay!($f, case, Store::Scattered, cx)?;
        let l1 = std::mem::take(&mut cx.log);
        crate::tok::reset();
        lay!($f, case, Store::Piled, cx)?;
        let l2 = cx.log;
        cx.check(l1 == l2, &["C34"], || "the history gives different observations when its initial trees are stored contiguously".into());
        cx.bail()
    }} }
    match w {
        W::RFault => { cx.frng = Some(Rng::new(case.params[3] as u64)); lay!(runr, case, Store::AsIs, cx) }
        W::R => lay!(runr, case, Store::AsIs, cx),
        W::RStore => twice!(runr),
        W::Store => twice!(runa),
        W::Pair => { use crate::wp::run as runp; lay!(runp, case, Store::AsIs, cx) }
        W::WStore => { use crate::ww::run as runw; twice!(runw) }
        W::Kind => wd::run(case, Store::AsIs, cx),
        W::Giant => wg::run(case, Store::AsIs, cx),
        W::GStore => { wg::run(case, Store::Scattered, cx)?; let l1 = std::mem::take(&mut cx.log); wg::run(case, Store::Piled, cx)?; let l2 = cx.log; cx.check(l1 == l2, &["C34"], || "a very large tree gives different observations when it is stored contiguously".into()); cx.bail() }
        W::KStore => { wd::run(case, Store::Scattered, cx)?; let l1 = std::mem::take(&mut cx.log); crate::tok::reset(); wd::run(case, Store::Piled, cx)?; let l2 = cx.log; cx.check(l1 == l2, &["C34"], || "the history gives different observations when its initial trees are stored contiguously".into()); cx.bail() }
        W::PStore => { use crate::wp::run as runp; twice!(runp) }
        W::Walk => { use crate::ww::run as runw; lay!(runw, case, Store::AsIs, cx) }
        W::Fault | W::Ill => { use crate::wf::run as runf; lay!(runf, case, Store::AsIs, cx) }
        W::Tuple => { use crate::wt::run as runt; lay!(runt, case, cx) }
        W::A => lay!(runa, case, Store::AsIs, cx),
    }
}

pub fn feat_name(k: usize) -> String {
    if k < wa::OPS.len() { return wa::OPS[k].into() }
    if k >= wr::F0 && k < wr::F0 + wr::OPS.len() { return wr::OPS[k - wr::F0].into() }
    if k >= ww::F0 && k < ww::F0 + ww::OPS.len() { return ww::OPS[k - ww::F0].into() }
    if k >= wp::F0 && k < wp::F0 + wp::OPS.len() { return format!("changed_by_{}", wp::OPS[k - wp::F0]) }
    if k >= wf::F0 && k < wf::F0 + wf::OPS.len() { return wf::OPS[k - wf::F0].into() }
    if k >= wd::F0 && k < wd::F0 + wd::KINDS { return format!("data_{}", wd::KIND_NAMES[k - wd::F0]) }
    match k {
        295 => "tree_of_about_65536_nodes".into(), 290 => "tree_of_another_data_type_over_3_nodes".into(), 291 => "node_of_another_data_type_died".into(), 292 => "weak_handle_found_nothing".into(),
        160 => "user_code_used_the_trees".into(), 161 => "user_code_changed_the_trees".into(), 162 => "user_code_kept_a_handle".into(), 163 => "data_borrow_leaked".into(),
        250 => "fault_struck".into(), 251 => "fault_struck_in_destructor".into(), 252 => "ill_sized_build".into(), 253 => "ill_sized_build_panicked".into(), 254 => "ill_sized_build_yielded_a_tree".into(),
        260 => "tuple_of_3_nodes".into(), 261 => "tuple_tree_visited".into(), 262 => "tuple_forest_visited".into(),
        215 => "equal".into(), 216 => "different".into(), 217 => "incomparable".into(), 218 => "prefix_of_the_other".into(), 219 => "different_shape_same_preorder_data".into(),
        190 => "walk_completed".into(), 191 => "walk_went_on_from_past_the_end".into(), 192 => "walker_turned_back_midway".into(), 193 => "walk_over_3_nodes".into(), 194 => "jump_landed".into(),
        149 => "step_after_which_no_handle_was_used_to_look".into(), 150 => "child_survived_its_parent".into(), 151 => "weak_found_nothing".into(), 152 => "weak_found_its_node".into(), 153 => "iterator_advanced_after_disturbance".into(),
        154 => "iterator_advanced_exactly".into(), 155 => "conflicting_access_refused".into(), 156 => "access_allowed_while_borrowed".into(), 157 => "node_held_by_iterator_only".into(), 158 => "ownership_conversion".into(), 159 => "extension_by_an_observing_iterator".into(),
        60 => "contiguous_block_checked".into(), 61 => "block_released".into(), 62 => "append_of_several_trees".into(), 63 => "owning_iter_left_partial".into(),
        64 => "owning_bfs_left_partial".into(), 65 => "bfs_over_3_nodes".into(), 66 => "edit_while_iterating".into(), 67 => "binary_operator".into(), 68 => "iter_over_1_child".into(),
        _ => format!("feature_{k}"),
    }
}
