"""Planted bugs, sixth batch: the search itself (C25, C29, C30). See mkbug.py."""
import os
from mkbug import bug, DEMO
from bugs1 import PRE
V="varisat/src/"
def hooked(id):
    """The demonstration watches the search through the observer of the guarded hooks."""
    p = f"/verif/seeded/{id}/demo.sh"
    open(p, "w").write(DEMO.replace("CARGO_TARGET_DIR", 'RUSTFLAGS="--cfg varisat_verif" CARGO_TARGET_DIR'))
    os.chmod(p, 0o755)
bug("c25-frozen-glue", "C25",
 "A clause learned from more than 40 decision levels that later takes part in a conflict of at most 6 levels.",
 "Its glue is not updated, so the clause stays among the local ones and is deleted although it belongs to a better tier.",
 [(V+"clause/assess.rs", "    if glue < clause.header().glue() {\n", "    // Clauses of very high glue do not recover\n    if glue < clause.header().glue() && clause.header().glue() <= 40 {\n")],
 PRE+'''
use varisat::verif::{set_observer, Event};
use std::{cell::Cell, rc::Rc};
fn main() {
    for n in [10, 55isize] {
        let core = Rc::new(Cell::new(false));
        let c2 = core.clone();
        set_observer(Some(Box::new(move |e| if let Event::Tier(_, 3, 1) = e { c2.set(true) })));
        let mut s = Solver::new();
        for m in 0..8isize {
            let mut w: Vec<isize> = (1..=n).collect();
            for k in 0..3 { w.push(if m >> k & 1 == 1 { n + 1 + k } else { -(n + 1 + k) }); }
            c(&mut s, &w);
        }
        for x in 1..=n { c(&mut s, &[-x, -(n + 4)]); }
        s.assume(&(1..=n).map(|x| l(-x)).collect::<Vec<_>>());
        assert!(!s.solve().unwrap());
        s.assume(&[l(n + 4)]);
        assert!(!s.solve().unwrap());
        assert!(core.get(), "the learned clause of {n} literals stays local");
    }
}
''')
hooked("c25-frozen-glue")
bug("c29-rescale-open", "C29",
 "Enough conflicts to rescale the activities (about 1700 with the default decay, fewer with a faster one) while a variable that has been active is assigned.",
 "The activity of assigned variables is not scaled down, so they are taken for the most active ones for the rest of the search.",
 [(V+"decision/vsids.rs", "        for activity in &mut self.activity {\n            activity.0 *= rescale_factor;\n        }\n", "        // Variables that are not in the heap are not compared\n        for var in &self.heap {\n            self.activity[var.index()].0 *= rescale_factor;\n        }\n")],
 PRE+'''
use varisat::verif::Vsids;
fn main() {
    let v = Var::from_index;
    for n in (0..2500).step_by(20) {
        let mut h = Vsids::default();
        h.set_var_count(3);
        for i in 0..3 { h.make_available(v(i)); }
        // 0 was very active long ago and is assigned, 2 has been active since
        for _ in 0..100 { h.bump(v(0)); }
        assert_eq!(h.next(), Some(v(0)));
        for _ in 0..n + 200 { h.decay(); h.bump(v(2)); }
        h.make_available(v(0));
        assert_eq!(h.next(), Some(v(2)), "after {n} rounds");
    }
}
''')
hooked("c29-rescale-open")
bug("c29-restart-forgets-value", "C29",
 "Variables are unassigned by going back to level 0: a restart, or a new solve call.",
 "Their last values are not saved, so the search decides for older values and turns away from where it was.",
 [(V+"prop/assignment.rs", "        assignment.last_value[lit.index()] = *var_assignment == Some(true);\n", "        // Restarts start over\n        if level > 0 {\n            assignment.last_value[lit.index()] = *var_assignment == Some(true);\n        }\n")],
 PRE+'''
fn main() {
    let mut s = Solver::new();
    c(&mut s, &[1, 2, 3]);
    c(&mut s, &[-1, 4, 5]);
    s.assume(&[l(1), l(2), l(5)]);
    assert!(s.solve().unwrap());
    s.assume(&[]);
    assert!(s.solve().unwrap());
    let m = s.model().unwrap();
    for x in [1, 2, 5] { assert!(m.contains(&l(x)), "{m:?}"); }
}
''')
bug("c30-short-jump", "C30",
 "A learned clause whose second deepest literal lies more than 24 levels above the conflict.",
 "The search goes back by one level only. The learned clause then forces a literal in levels between that are kept or reached again later without noticing.",
 [(V+"analyze_conflict.rs", "    ctx.part_mut(VsidsP).decay();\n\n    backtrack_to\n", "    ctx.part_mut(VsidsP).decay();\n\n    // Keep most of the assignment for very long jumps\n    if analyze.clause.len() > 1 && ctx.part(TrailP).current_level() > backtrack_to + 24 {\n        backtrack_to = ctx.part(TrailP).current_level() - 1;\n    }\n\n    backtrack_to\n")],
 PRE+'''
use varisat::verif::{set_observer, Event};
use std::{cell::Cell, rc::Rc};
fn main() {
    for n in [12, 60isize] {
        // (level of the last conflict, level gone back to)
        let seen = Rc::new(Cell::new((0, 0, false)));
        let s2 = seen.clone();
        set_observer(Some(Box::new(move |e| match e {
            Event::Assign(_, l) if !s2.get().2 => s2.set((l, 0, false)),
            Event::Conflict => s2.set((s2.get().0, 0, true)),
            Event::Backtrack(l) if s2.get().2 && s2.get().1 == 0 => s2.set((s2.get().0, l, true)),
            _ => (),
        })));
        let mut s = Solver::new();
        // 1 and n do not go together, which is noticed after the levels between
        c(&mut s, &[-1, -n, n + 1]);
        c(&mut s, &[-1, -n, n + 2, -(n + 1)]);
        c(&mut s, &[-1, -n, -(n + 2), -(n + 1)]);
        for x in 2..n { c(&mut s, &[x, -x - 1, n + 3]); }
        s.assume(&(1..=n).map(l).collect::<Vec<_>>());
        assert!(!s.solve().unwrap());
        assert_eq!(seen.get().1, 1, "{:?}", seen.get());
    }
}
''')
hooked("c30-short-jump")
bug("c30-unwatched", "C30",
 "Watch lists are rebuilt (after clauses were deleted or simplified) while learned clauses of more than 12 literals are kept.",
 "Those clauses are no longer watched: they neither propagate nor conflict any more.",
 [(V+"prop/watch.rs", "        let lits = alloc.clause(cref).lits();\n        watchlists.watch_clause", "        let lits = alloc.clause(cref).lits();\n        // The long learned clauses would only slow down propagation\n        if lits.len() > 12 && alloc.header(cref).redundant() {\n            continue;\n        }\n        watchlists.watch_clause")],
 PRE+'''
use varisat::verif::{set_observer, Event};
use std::{cell::RefCell, rc::Rc};
fn main() {
    for n in [8, 20isize] {
        let open = Rc::new(RefCell::new(vec![]));
        let o2 = open.clone();
        set_observer(Some(Box::new(move |e| if let Event::Assign(c, level) = e { o2.borrow_mut().push((c, level)) })));
        let mut s = Solver::new();
        for m in 0..8isize {
            let mut w: Vec<isize> = (1..=n).collect();
            for k in 0..3 { w.push(if m >> k & 1 == 1 { n + 1 + k } else { -(n + 1 + k) }); }
            c(&mut s, &w);
        }
        let all: Vec<_> = (1..=n).map(|x| l(-x)).collect();
        s.assume(&all);
        assert!(!s.solve().unwrap());
        // a new unit clause makes the solver rebuild its watch lists
        c(&mut s, &[n + 4, n + 5]);
        c(&mut s, &[n + 5]);
        s.assume(&[]);
        assert!(s.solve().unwrap());
        open.borrow_mut().clear();
        s.assume(&all[..n as usize - 1]);
        assert!(s.solve().unwrap());
        // the last one follows from the others directly
        let name = |x: isize| open.borrow().iter().find(|a| a.0 / 2 == x as usize - 1).map(|a| a.1);
        assert_eq!(name(n), name(n - 1), "{:?}", open.borrow());
    }
}
''')
hooked("c30-unwatched")
