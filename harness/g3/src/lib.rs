use mcbase::comps::*;
use mcbase::groups::GroupVt;
use mcbase::vts;

/// Extreme layouts.
pub fn big() -> Vec<GroupVt> {
    let mut v = Vec::new();
    vts!(v: X; Y; (X,Y); (Y,A,X); (X,B); (B,Y); (N,X); (Z,N); (N,Z,B);
    );
    v
}
/// Malformed groups: the same component more than once.
pub fn bad() -> Vec<GroupVt> {
    let mut v = Vec::new();
    vts!(v: (A,A); (Z,Z); (H,H);
            (A,A,W); (A,W,A); (W,A,A); (Z,Z,A); (Z,A,Z); (H,H,H);
            (A,A,W,H); (A,W,A,H); (A,W,H,A); (W,A,A,H); (W,A,H,A); (W,H,A,A); (A,W,A,W); (Z,Z,Z,Z); (A,A,Z,Z); (H,A,H,H);
            (A,Z,W,H,A); (A,Z,W,H,B,B);
            (A,Z,W,H,B,T,P,Q,L,G,V,N,S,A); (A,A,Z,W,H,B,T,P,Q,L,G,V,N,S); (A,Z,W,H,B,T,P,Q,L,G,V,N,S,S);
            (A,Z,W,H,B,T,P,P,Q,L,G,V,N,S); (A,Z,W,H,B,T,P,Q,L,G,V,N,S,H);
    );
    v
}
