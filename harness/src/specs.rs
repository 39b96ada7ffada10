//! One entry per property: which histories are generated and which departures count.
use crate::core::*;
use crate::Spec;

#[allow(dead_code)]
const CONTENT: &[K] = &[K::Content, K::Ret, K::NoPanic, K::Panic];
#[allow(dead_code)]
const DROPS: &[K] = &[K::DoubleDrop, K::Leak, K::DeadRead];

#[allow(dead_code)]
fn ops(r: &mut Rng, c: &mut Case, max: u64, kinds: u32, boost: &[u32], fault: bool) {
    let n = 1 + r.below(max);
    for _ in 0..n {
        let k = if !boost.is_empty() && r.below(3) == 0 { boost[r.below(boost.len() as u64) as usize] } else { r.below(kinds as u64) as u32 };
        let f = if fault && r.below(3) > 0 { 1 + r.below(7) as u32 } else { 0 };
        c.ops.push([k, r.arg(), r.arg(), r.next() as u32, f]);
    }
}

#[cfg(feature = "seq")]
mod sq {
    use super::*;
    pub fn gen(r: &mut Rng, boost: &[u32], fault: bool) -> Case {
        let mut c = Case { cfg: [0, r.next() as u32, 0, 0], ops: vec![] };
        let max = [8, 20, 40, 80][r.below(4) as usize];
        if r.below(4) > 0 {
            // start from some contents
            c.ops.push([19, 0, r.next() as u32, r.next() as u32, 0]);
        }
        ops(r, &mut c, max, 40, boost, fault);
        // Most operations shrink; keep the containers populated.
        for o in c.ops.iter_mut() {
            if r.below(5) == 0 {
                o[0] = [0, 6, 12, 19, 20, 19, 20][r.below(7) as usize];
            }
        }
        // arguments of a position or amount need all their bits
        for o in c.ops.iter_mut() {
            if r.below(2) == 0 {
                o[2] = r.next() as u32;
            }
        }
        // now and then a short history on thousands of elements
        if r.below(150) == 0 && !cfg!(miri) {
            c.cfg[3] = if r.below(5) == 0 { 3 } else { 1 };
            c.ops.truncate(16);
            for o in c.ops.iter_mut() {
                o[2] = r.next() as u32;
            }
        }
        c
    }
    pub fn gen_any(r: &mut Rng, boost: &[u32], fault: bool) -> Case {
        let mut c = gen(r, boost, fault);
        c.cfg[2] = r.below(2) as u32;
        c
    }
    pub fn vec(c: &Case) {
        crate::seq::run(c, false)
    }
    pub fn small(c: &Case) {
        crate::seq::run(c, true)
    }
    pub fn both(c: &Case) {
        crate::seq::run(c, c.cfg[2] % 2 == 1)
    }
}

#[allow(dead_code)]
fn seen(l: &str) -> u64 {
    g().labels.get(l).copied().unwrap_or(0)
}

#[cfg(feature = "str")]
mod st {
    use super::*;
    pub const RULE: &str = "at least three edits changed a text or built a non-empty one, at least one of them giving text with multi-byte characters; distinct = different decoded operation sequence";
    pub fn gen(r: &mut Rng, boost: &[u32], fault: bool) -> Case {
        let mut c = Case { cfg: [2, 0, 0, 0], ops: vec![] };
        if r.below(4) > 0 {
            c.ops.push([3, 0, 3 + r.below(4) as u32, r.next() as u32, 0]);
        }
        let max = [6, 16, 40][r.below(3) as usize];
        ops(r, &mut c, max, 30, boost, fault);
        for o in c.ops.iter_mut() {
            if r.below(2) == 0 {
                o[2] = r.next() as u32;
            }
            if r.below(6) == 0 {
                o[0] = [0, 3, 7, 9, 21][r.below(5) as usize];
            }
        }
        // now and then a short history on texts of thousands of bytes
        if r.below(150) == 0 && !cfg!(miri) {
            c.cfg[3] = if r.below(5) == 0 { 3 } else { 1 };
            c.ops.truncate(16);
            for o in c.ops.iter_mut() {
                if r.below(3) == 0 {
                    o[2] = match c.cfg[3] {
                        3 => 28 + 29 * (8 + 32 * (5 + 64 * r.below(700) as u32)),
                        _ => 28 + 29 * (7 + 32 * r.below(500) as u32),
                    };
                }
            }
        }
        c
    }
}

#[cfg(feature = "ptr")]
mod pt {
    use super::*;
    pub const RULE: &str = "at least two more pointers were made by cloning, downgrading, upgrading, linking or enveloping, and at least one value was unwrapped, written to through copy-on-write or exclusive access with others around, converted, or unlinked; distinct = different decoded operation sequence";
    pub fn gen_box(r: &mut Rng, fault: bool) -> Case {
        let mut c = Case { cfg: [4, r.next() as u32, 0, 0], ops: vec![] };
        let max = [6, 14, 30][r.below(3) as usize];
        ops(r, &mut c, max, 16, &[0, 1, 1, 2, 3, 14, 8, 10, 11, 15], fault);
        for o in c.ops.iter_mut() {
            if r.below(2) == 0 {
                o[2] = r.below(5) as u32;
            }
            o[3] = r.next() as u32;
        }
        c
    }
    pub const MASK: &[K] = &[K::Count, K::Life, K::Excl, K::Content, K::Ret, K::Panic, K::DoubleDrop, K::Leak, K::DeadRead, K::Block, K::BlockLeak];
    pub fn gen(r: &mut Rng, boost: &[u32], fault: bool) -> Case {
        let mut c = Case { cfg: [3, r.next() as u32, r.next() as u32, 0], ops: vec![] };
        for _ in 0..1 + r.below(3) {
            c.ops.push([0, r.next() as u32, r.next() as u32, r.next() as u32, 0]);
        }
        let max = [6, 14, 30, 60][r.below(4) as usize];
        ops(r, &mut c, max, 26, boost, fault);
        for o in c.ops.iter_mut() {
            // slots need even choices
            if r.below(2) == 0 {
                o[1] = r.below(6) as u32;
                o[2] = r.below(6) as u32;
            }
        }
        // sometimes only few slots, so that the same value is met again and again
        if r.below(2) == 0 {
            let n = 1 + r.below(3) as u32;
            for o in c.ops.iter_mut() {
                o[2] %= n;
            }
        }
        c
    }
}

pub const SEQ_RULE: &str = "the history grew a container at least twice and also shrank one, moved one between storages, or caused at least two allocator requests; distinct = different decoded operation sequence";

pub fn specs() -> Vec<Spec> {
    let mut v: Vec<Spec> = vec![];
    #[cfg(feature = "misc")]
    {
        v.push(Spec { id: "C19", keep: 0, mask: mask(&[K::Scope, K::DoubleDrop, K::DeadRead]), fault: FaultMode::None, gen: |r| {
            let mut c = Case { cfg: [5, r.next() as u32 % 96, 0, 0], ops: vec![] };
            let max = [6, 14, 30][r.below(3) as usize];
            let n = 2 + r.below(max);
            for _ in 0..n {
                let k = if r.below(3) == 0 { 8 } else { r.below(12) as u32 };
                c.ops.push([k, r.next() as u32 % 96, r.next() as u32 % 9, r.next() as u32 % 2310, r.next() as u32 % 96]);
            }
            c
        }, run: crate::scopes::run, rule: "scopes were nested at least two deep, at least two were spawned and at least three requests made; distinct = different decoded operation sequence" });
        v.push(Spec { id: "C21", keep: 0, mask: mask(&[K::Cmp]), fault: FaultMode::None, gen: |r| {
            let mut c = Case { cfg: [7, 0, 0, 0], ops: vec![] };
            for _ in 0..1 + r.below(8) {
                c.ops.push([r.next() as u32 % 24, r.next() as u32 % 60, r.next() as u32 % 100_000, r.next() as u32 % 4096, r.next() as u32 % 4096]);
            }
            c
        }, run: crate::cmp::run, rule: "at least one equal and one unequal pair were compared; distinct = different decoded operation sequence" });
        v.push(Spec { id: "C22", keep: 0, mask: mask(&[K::Content, K::Move, K::DoubleDrop, K::DeadRead, K::Leak]), fault: FaultMode::None, gen: |r| {
            let mut c = Case { cfg: [8, r.next() as u32 % 12, r.next() as u32 % 100_000, r.next() as u32 % 5], ops: vec![] };
            for _ in 0..1 + r.below(12) {
                c.ops.push([r.next() as u32 % 5, 0, r.next() as u32 % 120, r.next() as u32 % 1024, 0]);
            }
            c
        }, run: crate::conv::run, rule: "at least three owning conversions of two or more elements (or of a text of two or more bytes); distinct = different decoded operation sequence" });
        v.push(Spec { id: "C20.eq", keep: 0, mask: mask(&[K::Select]), fault: FaultMode::None, gen: |r| {
            let mut c = Case { cfg: [6, 0, 0, 0], ops: vec![] };
            for _ in 0..2 + r.below(7) {
                c.ops.push([0, r.next() as u32 % 6, r.next() as u32 % 10, r.next() as u32 % 3, 0]);
            }
            c
        }, run: crate::scopes::run_eq, rule: "both equal pairs (besides a selector and itself) and unequal pairs occurred; distinct = different decoded operation sequence" });
    }
    #[cfg(feature = "str")]
    {
        const TEXT: &[K] = &[K::Content, K::Ret, K::NoPanic, K::Panic, K::Utf8, K::Move];
        v.push(Spec { id: "C11", keep: 0, mask: mask(TEXT), fault: FaultMode::None, gen: |r| st::gen(r, &[5, 6, 7, 8, 9, 10, 11, 12, 13], false), run: crate::strs::run, rule: st::RULE });
        v.push(Spec {
            id: "C12",
            keep: 0,
            mask: mask(TEXT),
            fault: FaultMode::None,
            gen: |r| {
                let mut c = st::gen(r, &[27, 28, 29, 23, 24, 26, 21, 22, 27, 28], false);
                // only building, slicing, collecting and formatting
                for o in c.ops.iter_mut() {
                    if !matches!(o[0], 0 | 3 | 21..=29) {
                        o[0] = 27;
                    }
                    if o[0] >= 27 {
                        o[1] = r.next() as u32;
                    }
                }
                c
            },
            run: |c| {
                crate::strs::run(c);
                g().nontrivial = seen("malformed") >= 1 && g().nontrivial;
            },
            rule: "text with multi-byte characters was built and at least one malformed byte or UTF-16 sequence was offered; distinct = different decoded operation sequence",
        });
        v.push(Spec { id: "C06.str", keep: 0, mask: mask(&[K::Block, K::BlockLeak, K::Zero]), fault: FaultMode::None, gen: |r| st::gen(r, &[17, 12, 21, 22, 27], false), run: crate::strs::run, rule: st::RULE });
        v.push(Spec { id: "C20.str", keep: 0, mask: mask(&[K::Select]), fault: FaultMode::None, gen: |r| st::gen(r, &[15, 16, 17, 27, 27, 3, 9, 21], false), run: |c| {
            crate::strs::run(c);
            g().nontrivial = seen("selected") + seen("served_by_marked") >= 3;
        }, rule: "at least three requests of strings with a known marker were compared; distinct = different decoded operation sequence" });
        v.push(Spec { id: "C07.str", keep: 0, mask: mask(&[K::Cap]), fault: FaultMode::None, gen: |r| st::gen(r, &[15, 16, 17, 15, 16, 9, 3, 21], false), run: crate::strs::run, rule: st::RULE });
        v.push(Spec {
            id: "C08.str",
            keep: 0,
            mask: mask(&[K::Heap]),
            fault: FaultMode::None,
            gen: |r| {
                // mostly operations that add nothing
                let mut c = st::gen(r, &[27, 28, 29, 2, 4], false);
                c.ops.retain(|o| o[0] >= 27 || r.below(3) > 0);
                for o in c.ops.iter_mut() {
                    if o[0] < 27 && r.below(4) > 0 {
                        o[0] = [2, 3, 4, 11, 12, 13, 15, 17, 18, 19, 21, 26][r.below(12) as usize];
                        o[2] = o[2] / 203 * 203;
                        if o[0] == 15 {
                            o[3] = 0;
                        }
                    } else if o[0] >= 27 {
                        o[1] = [0, 3, 9, 27][r.below(4) as usize];
                    }
                }
                c
            },
            run: |c| {
                crate::strs::run(c);
                g().nontrivial = seen("unfilled_op") >= 3;
            },
            rule: "at least three operations on strings created without capacity and never filled; distinct = different decoded operation sequence",
        });
        v.push(Spec { id: "C09.str", keep: 0, mask: mask(&[K::Fault, K::BlockLeak, K::Utf8, K::Block]), fault: FaultMode::Alloc, gen: |r| st::gen(r, &[0, 3, 9, 15, 16, 21, 22, 27, 18], true), run: |c| {
            crate::strs::run(c);
            g().nontrivial = seen("refused") >= 1;
        }, rule: "at least one allocation request inside an operation under test was refused; distinct = different decoded operation sequence" });
        v.push(Spec { id: "C10.str", keep: 0, mask: mask(&[K::Swallow, K::Utf8, K::Block]), fault: FaultMode::Panic, gen: |r| st::gen(r, &[13, 14, 21, 22, 13, 27], true), run: |c| {
            crate::strs::run(c);
            g().nontrivial = seen("callback_panic") >= 1;
        }, rule: "at least one caller-supplied callback panicked inside an operation; distinct = different decoded operation sequence" });
    }
    #[cfg(feature = "ptr")]
    {
        const BOX: &str = "at least two boxes or pointers were made, at least one was dropped or opened, and at least one was written to, swapped, compared or iterated; distinct = different decoded operation sequence";
        v.push(Spec { id: "C13", keep: 0, mask: mask(&[K::Content, K::Ret, K::Panic, K::Cmp, K::Iter, K::DoubleDrop, K::Leak, K::DeadRead, K::Life, K::Block, K::BlockLeak, K::Zero, K::Cap]), fault: FaultMode::None, gen: |r| pt::gen_box(r, false), run: crate::boxes::run, rule: BOX });
        v.push(Spec { id: "C06.box", keep: 0, mask: mask(&[K::Block, K::BlockLeak, K::Zero]), fault: FaultMode::None, gen: |r| pt::gen_box(r, false), run: crate::boxes::run, rule: BOX });
        v.push(Spec { id: "C20.box", keep: 0, mask: mask(&[K::Select]), fault: FaultMode::None, gen: |r| pt::gen_box(r, false), run: crate::boxes::run, rule: BOX });
        v.push(Spec { id: "C09.box", keep: 0, mask: mask(&[K::Fault, K::Leak, K::DoubleDrop, K::DeadRead, K::BlockLeak]), fault: FaultMode::Alloc, gen: |r| pt::gen_box(r, true), run: |c| {
            crate::boxes::run(c);
            g().nontrivial = seen("refused") >= 1;
        }, rule: "at least one allocation request inside an operation under test was refused; distinct = different decoded operation sequence" });
        v.push(Spec { id: "C10.box", keep: 0, mask: mask(&[K::DoubleDrop, K::DeadRead, K::Swallow]), fault: FaultMode::Panic, gen: |r| pt::gen_box(r, true), run: |c| {
            crate::boxes::run(c);
            g().nontrivial = seen("callback_panic") >= 1;
        }, rule: "at least one caller-supplied callback panicked inside an operation; distinct = different decoded operation sequence" });
        v.push(Spec { id: "C14", keep: 0, mask: mask(pt::MASK), fault: FaultMode::None, gen: |r| pt::gen(r, &[2, 6, 13, 11, 16, 17, 10], false), run: crate::ptrs::rc, rule: pt::RULE });
        v.push(Spec { id: "C15", keep: 0, mask: mask(pt::MASK), fault: FaultMode::None, gen: |r| pt::gen(r, &[2, 6, 13, 11, 15, 4, 8], false), run: crate::ptrs::arc, rule: pt::RULE });
        v.push(Spec { id: "C17", keep: 0, mask: mask(pt::MASK), fault: FaultMode::None, gen: |r| pt::gen(r, &[2, 6, 13, 11, 20, 21, 23, 22], false), run: crate::ptrs::urc, rule: pt::RULE });
        v.push(Spec { id: "C06.ptr", keep: 0, mask: mask(&[K::Block, K::BlockLeak, K::Zero]), fault: FaultMode::None, gen: |r| pt::gen(r, &[13, 11, 8, 4, 21, 23], false), run: crate::ptrs::any, rule: pt::RULE });
        v.push(Spec { id: "C20.ptr", keep: 0, mask: mask(&[K::Select]), fault: FaultMode::None, gen: |r| pt::gen(r, &[0, 13, 13, 20, 23, 4], false), run: |c| {
            crate::ptrs::any(c);
            g().nontrivial = seen("selected") >= 3;
        }, rule: "at least three requests were compared; distinct = different decoded operation sequence" });
        v.push(Spec { id: "C09.ptr", keep: 0, mask: mask(&[K::Fault, K::Leak, K::DoubleDrop, K::DeadRead, K::BlockLeak, K::Count, K::Life]), fault: FaultMode::Alloc, gen: |r| {
            let mut c = pt::gen(r, &[0, 13, 13, 20, 23, 0], true);
            for o in c.ops.iter_mut() {
                if o[4] > 0 {
                    o[4] = 1 + o[4] % 2;
                }
            }
            c
        }, run: |c| {
            crate::ptrs::any(c);
            g().nontrivial = seen("refused") >= 1;
        }, rule: "at least one allocation request inside an operation under test was refused; distinct = different decoded operation sequence" });
        v.push(Spec { id: "C10.ptr", keep: 0, mask: mask(&[K::DoubleDrop, K::DeadRead, K::Swallow, K::Block]), fault: FaultMode::Panic, gen: |r| pt::gen(r, &[13, 13, 4, 11, 24], true), run: |c| {
            crate::ptrs::any(c);
            g().nontrivial = seen("callback_panic") >= 1;
        }, rule: "at least one caller-supplied callback panicked inside an operation; distinct = different decoded operation sequence" });
    }
    #[cfg(feature = "seq")]
    {
        v.push(Spec { id: "C01", keep: 0, mask: mask(CONTENT), fault: FaultMode::None, gen: |r| sq::gen(r, &[6, 7, 8, 9, 14, 17, 21, 23], false), run: sq::vec, rule: SEQ_RULE });
        v.push(Spec { id: "C02", keep: 0, mask: mask(CONTENT), fault: FaultMode::None, gen: |r| sq::gen(r, &[6, 7, 8, 9, 14, 17, 21, 36], false), run: sq::small, rule: SEQ_RULE });
        v.push(Spec { id: "C03", keep: 0, mask: mask(DROPS), fault: FaultMode::None, gen: |r| sq::gen(r, &[10, 11, 14, 17, 23, 26, 27, 35, 38], false), run: sq::vec, rule: SEQ_RULE });
        v.push(Spec { id: "C04", keep: 0, mask: mask(DROPS), fault: FaultMode::None, gen: |r| sq::gen(r, &[10, 11, 14, 17, 23, 36, 36, 37, 21], false), run: sq::small, rule: SEQ_RULE });
        v.push(Spec {
            id: "C05",
            keep: 0,
            mask: mask(&[K::Iter, K::DoubleDrop, K::Leak, K::DeadRead]),
            fault: FaultMode::None,
            gen: |r| {
                let mut c = sq::gen(r, &[23, 24, 25, 26, 27], false);
                c.cfg[2] = r.below(3) as u32 / 2;
                // only operations that build contents or iterate, so that what goes wrong is the iterators' doing
                for o in c.ops.iter_mut() {
                    if !matches!(o[0], 0..=4 | 10 | 19 | 20 | 23..=27 | 28 | 32 | 36 | 38 | 39) {
                        o[0] = [0, 19, 19, 20, 23, 24, 26, 39][r.below(8) as usize];
                    }
                }
                c
            },
            run: |c| {
                sq::both(c);
                g().nontrivial = seen("iterated_2_or_more") >= 2;
            },
            rule: "at least two drains or consuming iterators were stepped over two or more elements; distinct = different decoded operation sequence",
        });
        v.push(Spec { id: "C07.seq", keep: 0, mask: mask(&[K::Cap]), fault: FaultMode::None, gen: |r| sq::gen_any(r, &[28, 29, 28, 29, 30, 31, 19, 20], false), run: sq::both, rule: SEQ_RULE });
        v.push(Spec { id: "C06.seq", keep: 0, mask: mask(&[K::Block, K::BlockLeak, K::Zero]), fault: FaultMode::None, gen: |r| sq::gen_any(r, &[30, 31, 35, 36, 37, 26, 39], false), run: sq::both, rule: SEQ_RULE });
        v.push(Spec { id: "C20.seq", keep: 0, mask: mask(&[K::Select]), fault: FaultMode::None, gen: |r| sq::gen_any(r, &[39, 39, 28, 30, 31, 35, 36, 37, 14, 19], false), run: |c| {
            sq::both(c);
            g().nontrivial = seen("selected") + seen("served_by_marked") >= 3;
        }, rule: "at least three requests of containers with a known marker were compared; distinct = different decoded operation sequence" });
        v.push(Spec { id: "C08", keep: 0, mask: mask(&[K::Heap]), fault: FaultMode::None, gen: |r| {
            let mut c = sq::gen_any(r, &[0, 5, 10, 39, 39, 8, 14], false);
            c.cfg[2] = (r.below(4) > 0) as u32;
            if c.cfg[2] == 0 && r.below(4) > 0 {
                c.cfg[1] = [8, 13][r.below(2) as usize] + 14 * r.below(100) as u32; // zero-sized elements
            }
            if r.below(4) > 0 {
                // stay with operations that may not end the entitlement
                for o in c.ops.iter_mut() {
                    if matches!(o[0], 28 | 29 | 35 | 36 | 37 | 38) {
                        o[0] = [5, 8, 10, 14, 21, 23][r.below(6) as usize];
                    }
                    if matches!(o[0], 12 | 13 | 19 | 20) {
                        o[2] %= 4;
                    }
                }
            }
            c
        }, run: |c| {
            sq::both(c);
            g().nontrivial = seen("heapless_growth") >= 3;
        }, rule: "containers that are entitled to need no heap memory grew at least three times; distinct = different decoded operation sequence" });
        v.push(Spec { id: "C09.seq", keep: 0, mask: mask(&[K::Fault, K::Leak, K::DoubleDrop, K::DeadRead, K::BlockLeak]), fault: FaultMode::Alloc, gen: |r| sq::gen_any(r, &[0, 19, 20, 12, 13, 28, 29, 36, 39, 32], true), run: |c| {
            sq::both(c);
            g().nontrivial = seen("refused") >= 1;
        }, rule: "at least one allocation request inside an operation under test was refused; distinct = different decoded operation sequence" });
        v.push(Spec { id: "C10.seq", keep: 0, mask: mask(&[K::DoubleDrop, K::DeadRead, K::Swallow]), fault: FaultMode::Panic, gen: |r| sq::gen_any(r, &[10, 11, 14, 15, 16, 17, 23, 12, 13, 20, 32], true), run: |c| {
            sq::both(c);
            g().nontrivial = seen("callback_panic") >= 1;
        }, rule: "at least one caller-supplied callback panicked inside an operation; distinct = different decoded operation sequence" });
    }
    #[cfg(feature = "thr")]
    {
        use crate::threads as th;
        v.push(Spec { id: "C16", keep: 0, mask: mask(th::MASK), fault: FaultMode::None, gen: |r| th::gen(r, 0), run: |c| th::run(c, 0), rule: th::RULE });
        v.push(Spec { id: "C18", keep: 0, mask: mask(th::MASK), fault: FaultMode::None, gen: |r| th::gen(r, 1), run: |c| th::run(c, 1), rule: th::RULE });
    }
    // Memory safety: the same histories under the sanitizers, and shortened for Miri.
    const MEM: &[K] = &[K::Block, K::DeadRead];
    const FROM: [(&str, &str, &str, usize); 9] = [
        ("C06.seq", "C23.seq", "C23m.seq", 4),
        ("C10.seq", "C23.panic", "C23m.panic", 4),
        ("C06.str", "C23.str", "C23m.str", 4),
        ("C12", "C23.text", "C23m.text", 3),
        ("C06.ptr", "C23.ptr", "C23m.ptr", 6),
        ("C06.box", "C23.box", "C23m.box", 4),
        ("C21", "C23.cmp", "C23m.cmp", 1),
        ("C22", "C23.conv", "C23m.conv", 2),
        ("C19", "C23.scope", "C23m.scope", 5),
    ];
    for (from, full, short, keep) in FROM {
        if let Some(b) = v.iter().find(|s| s.id == from) {
            let (fault, gen, run, rule) = (b.fault, b.gen, b.run, b.rule);
            v.push(Spec { id: full, mask: mask(MEM), fault, gen, run, rule, keep: 0 });
            v.push(Spec { id: short, mask: mask(MEM), fault, gen, run, rule, keep });
        }
    }
    v
}
