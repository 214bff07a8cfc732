//! C07: LRAT and CLRAT proofs.
use crate::engine::*;
use crate::hist::*;
use crate::proofs::*;
use crate::props::c01::{clauses_of_size, show};
use crate::props::c06::{small_families, structured_families, wide_family};
use crate::refsat::*;
use varisat::ProofFormat;
use varisat_checker::{Checker, ProofProcessor};
use varisat_lrat::WriteLrat;

pub fn judge(what: &str, text: &[u8], binary: &[u8], cls: &[Cl], truth: bool) -> CaseResult {
    let e = |m: String| format!("{what}: {m}: {}", show(cls));
    let t = parse_lrat_text(text).map_err(|x| e(format!("text: {x}")))?;
    let b = parse_lrat_binary(binary).map_err(|x| e(format!("compressed: {x}")))?;
    let done = check_lrat(cls, &t).map_err(|x| e(format!("text: {x}")))?;
    let done_b = check_lrat(cls, &b).map_err(|x| e(format!("compressed: {x}")))?;
    if flatten_lrat(&t) != flatten_lrat(&b) {
        return Err(e("text and compressed proof differ".into()));
    }
    if !truth && !(done && done_b) {
        return Err(e("the proof does not derive the empty clause".into()));
    }
    if truth && (done || done_b) {
        return Err(e("the proof refutes a satisfiable formula".into()));
    }
    Ok(())
}

pub fn lrat(ops: &[Op], cls: &[Cl], cfg: Cfg, truth: bool, rec: &mut Rec) -> CaseResult {
    let (t, b) = (Buf::default(), Buf::default());
    let native;
    {
        let mut pt = WriteLrat::new(t.clone(), false);
        let mut pb = WriteLrat::new(b.clone(), true);
        let setup = Setup { cfg, format: Some(ProofFormat::Varisat), no_reference: true, self_check: false };
        let out = run(ops, setup, vec![&mut pt as &mut dyn ProofProcessor, &mut pb], rec)?;
        if out.obs.iter().any(|o| *o == Obs::Verdict(!truth)) {
            return Err(format!("wrong verdict: {}", show(cls)));
        }
        native = out.proof;
        pt.flush().map_err(|e| format!("{e}"))?;
        pb.flush().map_err(|e| format!("{e}"))?;
        // (while both writers are still open)
        judge("on the fly", &t.0.borrow(), &b.0.borrow(), cls, truth)?;
    }
    if t.0.borrow().len() > 8 {
        rec.nontrivial(fp(&(cls, cfg.restart, cfg.locals)));
    }
    // from the stored proof
    let (t, b) = (Buf::default(), Buf::default());
    {
        let mut pt = WriteLrat::new(t.clone(), false);
        let mut pb = WriteLrat::new(b.clone(), true);
        let mut checker = Checker::new();
        checker.add_processor(&mut pt);
        checker.add_processor(&mut pb);
        checker.add_formula(&formula(cls)).map_err(|e| format!("{e}"))?;
        checker.check_proof(&native[..]).map_err(|e| format!("the stored proof is refused: {e}: {}", show(cls)))?;
        drop(checker);
        pt.flush().map_err(|e| format!("{e}"))?;
        pb.flush().map_err(|e| format!("{e}"))?;
        judge("from the stored proof", &t.0.borrow(), &b.0.borrow(), cls, truth)?;
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    small_families(&mut fam, thorough, |cls, cfg, truth, rec| {
        let mut ops: Vec<Op> = cls.iter().map(|c| Op::Clause(c.clone())).collect();
        ops.push(Op::Solve);
        lrat(&ops, cls, cfg, truth, rec)?;
        if cls.len() < 5 {
            ops.push(Op::Solve);
            lrat(&ops, cls, cfg, truth, rec)?;
        }
        Ok(())
    });
    structured_families(&mut fam, thorough, false, |cls, cfg, truth, rec| {
        lrat(&[Op::Formula(cls.to_vec()), Op::Solve], cls, cfg, truth, rec)
    });
    fam.push(wide_family(thorough, false, |cls, cfg, truth, rec| {
        lrat(&[Op::Formula(cls.to_vec()), Op::Solve], cls, cfg, truth, rec)
    }));
    {
        let mut counts: Vec<usize> = (50..66).chain(112..130).chain(8176..8194).collect();
        if thorough {
            counts.extend(16370..16386);
        }
        let mut f: Vec<Vec<Cl>> = vec![clauses_of_size(3, 3), clauses_of_size(2, 2)];
        for k in 0..8 {
            let mut g = clauses_of_size(3, 3);
            let c = g.remove(k);
            g.push(c[..2].to_vec());
            f.push(g);
        }
        fam.push(Family::new(
            "large clause numbers",
            format!("{} formulas after {} different numbers of unrelated clauses (binary, repeated or tautological)", f.len(), counts.len()),
            (counts.len() * f.len() * 3) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let kind = d.take(3);
                let k = d.take(f.len());
                let n = counts[d.take(counts.len())];
                let mut g: Vec<Cl> = (0..n as i32)
                    .map(|i| match kind {
                        0 => vec![4 + i % 90, 100 + i / 90],
                        1 => vec![4, 5, 6],
                        _ => vec![4, 5, -4],
                    })
                    .collect();
                g.extend_from_slice(&f[k]);
                lrat(&[Op::Formula(g.clone()), Op::Solve], &g, cfg(1, 1, 1), false, rec)
                    .map_err(|e| format!("{n} clauses of kind {kind} before formula {k}: {}", &e[..e.len().min(300)]))
            },
        ));
    }
    Check {
        id: "C07",
        level: "exploration",
        rule: "a case is a formula with a configuration, solved with LRAT and CLRAT writers on the fly and again from the stored native proof; non-trivial when the LRAT proof has steps, distinct by hash of formula and configuration",
        assumptions: vec!["the harness's own strict LRAT checker"],
        families: fam,
    }
}
