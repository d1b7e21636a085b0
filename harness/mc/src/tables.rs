//! All group types and component types used, type-erased.
use mcbase::comps::*;
use mcbase::groups::*;

pub struct Tables {
    pub g: Vec<GroupVt>,
    pub k: Vec<KindVt>,
    /// Index ranges into `g`.
    pub pal1: std::ops::Range<usize>,
    pub pal2: std::ops::Range<usize>,
    pub wide: std::ops::Range<usize>,
    pub big: std::ops::Range<usize>,
    pub bad: std::ops::Range<usize>,
    /// Iterations of some groups consumed in other ways than with `next`, with their index into `g`.
    pub styles: Vec<(usize, StyleFn)>,
}
unsafe impl Sync for Tables {}
unsafe impl Send for Tables {}

impl Tables {
    /// The first registered well-formed group naming exactly `ks` in this order.
    pub fn find(&self, ks: &[u8]) -> usize {
        self.g.iter().position(|g| g.ks == ks).unwrap_or_else(|| panic!("no group {ks:?}"))
    }
    /// Some well-formed group naming exactly the set.
    pub fn of_mask(&self, m: u32) -> Option<usize> {
        self.g.iter().position(|g| g.wf && g.mask == m)
    }
    pub fn name(&self, g: usize) -> String {
        let v: Vec<&str> = self.g[g].ks.iter().map(|k| kinds()[*k as usize].name).collect();
        if v.len() == 1 {
            v[0].to_string()
        } else {
            format!("({})", v.join(","))
        }
    }
}

pub fn tables() -> &'static Tables {
    use std::sync::OnceLock;
    static C: OnceLock<Tables> = OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<GroupVt> = mcg1::pal1();
        let p1 = 0..v.len();
        v.extend(mcg1::pal2());
        let p2 = p1.end..v.len();
        v.extend(mcg2::wide());
        let wide = p2.end..v.len();
        v.extend(mcg3::big());
        let big = wide.end..v.len();
        v.extend(mcg3::bad());
        let bad = big.end..v.len();
        let k = vec![
            kvt::<A>(), kvt::<Z>(), kvt::<W>(), kvt::<H>(), kvt::<B>(), kvt::<T>(), kvt::<P>(), kvt::<Q>(), kvt::<L>(),
            kvt::<G>(), kvt::<V>(), kvt::<N>(), kvt::<S>(), kvt::<D>(), kvt::<E>(), kvt::<X>(), kvt::<Y>(),
        ];
        let styles = mcg1::styles().into_iter().map(|(ks, f)| (v.iter().position(|g| g.ks == ks).unwrap(), f)).collect();
        Tables { g: v, k, pal1: p1, pal2: p2, wide, big, bad, styles }
    })
}
