//! Loops: exact unrolling while the trip decision is known.
use crate::interp::*;
use crate::ir::*;
use crate::val::*;

impl<'tcx> Interp<'tcx> {
    pub fn run_loop(&mut self, fr: &Fr, l: usize, st: State) -> R<(Vec<(usize, State)>, Vec<State>)> {
        let _: Option<&Body> = Some(fr.body);
        let h = fr.body.loops[l].header;
        let mut cur = vec![st];
        let mut exits = vec![];
        let mut rets = vec![];
        let mut it = 0;
        while !cur.is_empty() {
            it += 1;
            if it > self.bound {
                return unsup("loop does not terminate within the bound");
            }
            let entry = cur.into_iter().map(|s| (h, s)).collect();
            let (back, ex, rt) = self.region(fr, entry, Some(l))?;
            exits.extend(ex);
            rets.extend(rt);
            let mut b = back;
            for s in b.iter_mut() {
                self.kill_dead(s, fr, h);
            }
            cur = if b.len() > 1 { self.merge_all(b) } else { b };
        }
        Ok((exits, rets))
    }
}
