//! Zones: difference bounds over integer symbols; symbol 0 is the constant zero.
use std::collections::BTreeMap;
#[derive(Clone, Default, Debug, PartialEq, Eq, Hash)]
pub struct Dbm {
  /// (a,b) -> c means a - b <= c; kept closed
  pub m: BTreeMap<(u32, u32), i128>,
  pub next: u32,
}
impl Dbm {
  pub fn fresh(&mut self) -> u32 {
    self.next += 1;
    self.next
  }
  pub fn ub(&self, a: u32, b: u32) -> Option<i128> {
    if a == b {
      Some(0)
    } else {
      self.m.get(&(a, b)).copied()
    }
  }
  fn syms(&self) -> Vec<u32> {
    let mut v: Vec<u32> = self.m.keys().flat_map(|k| [k.0, k.1]).collect();
    v.sort();
    v.dedup();
    v
  }
  /// add a - b <= c; false when it becomes inconsistent
  pub fn add(&mut self, a: u32, b: u32, c: i128) -> bool {
    if a == b {
      return c >= 0;
    }
    if let Some(o) = self.ub(b, a) {
      if o + c < 0 {
        return false;
      }
    }
    if let Some(o) = self.ub(a, b) {
      if o <= c {
        return true;
      }
    }
    self.m.insert((a, b), c);
    let s = self.syms();
    for &x in &s {
      let xa = if x == a { Some(0) } else { self.ub(x, a) };
      let Some(xa) = xa else { continue };
      for &y in &s {
        if x == y {
          continue;
        }
        let by = if y == b { Some(0) } else { self.ub(b, y) };
        let Some(by) = by else { continue };
        let t = xa + c + by;
        match self.ub(x, y) {
          Some(o) if o <= t => {}
          _ => {
            self.m.insert((x, y), t);
          }
        }
      }
    }
    true
  }
}
