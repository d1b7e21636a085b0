use mcbase::comps::*;
use mcbase::groups::GroupVt;
use mcbase::vts;

/// Every ordering of every non-empty subset of {A, Z, W, H}.
pub fn pal1() -> Vec<GroupVt> {
    let mut v = Vec::new();
    vts!(v: A; Z; W; H;
            (A,Z); (A,W); (A,H); (Z,A); (Z,W); (Z,H); (W,A); (W,Z); (W,H); (H,A); (H,Z); (H,W);
            (A,Z,W); (A,Z,H); (A,W,Z); (A,W,H); (A,H,Z); (A,H,W);
            (Z,A,W); (Z,A,H); (Z,W,A); (Z,W,H); (Z,H,A); (Z,H,W);
            (W,A,Z); (W,A,H); (W,Z,A); (W,Z,H); (W,H,A); (W,H,Z);
            (H,A,Z); (H,A,W); (H,Z,A); (H,Z,W); (H,W,A); (H,W,Z);
            (A,Z,W,H); (A,Z,H,W); (A,W,Z,H); (A,W,H,Z); (A,H,Z,W); (A,H,W,Z);
            (Z,A,W,H); (Z,A,H,W); (Z,W,A,H); (Z,W,H,A); (Z,H,A,W); (Z,H,W,A);
            (W,A,Z,H); (W,A,H,Z); (W,Z,A,H); (W,Z,H,A); (W,H,A,Z); (W,H,Z,A);
            (H,A,Z,W); (H,A,W,Z); (H,Z,A,W); (H,Z,W,A); (H,W,A,Z); (H,W,Z,A);
    );
    v
}
/// Every subset of {B, T, P, V}.
pub fn pal2() -> Vec<GroupVt> {
    let mut v = Vec::new();
    vts!(v: B; T; P; V; (B,T); (P,B); (V,B); (T,P); (V,T); (P,V); (T,B,P); (V,T,B); (B,V,P); (P,T,V); (V,P,T,B);
    );
    v
}
/// Groups whose iterations are also consumed in other ways than with `next`.
pub fn styles() -> Vec<(&'static [u8], mcbase::groups::StyleFn)> {
    use mcbase::groups::{styled, Grp};
    macro_rules! s {
        ($($G:ty;)*) => { vec![$((<$G as Grp>::KS, styled::<$G> as mcbase::groups::StyleFn)),*] };
    }
    s!(A; H; (W,A); (H,W,Z,A); (A,Z,W,H,B,T,P,Q,L,G,V,N,S,D);)
}
