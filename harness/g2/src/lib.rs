use mcbase::comps::*;
use mcbase::groups::GroupVt;
use mcbase::vts;

/// Arities 5..14 over the universe, both directions; every rotation at 14; every 13-subset of 14.
pub fn wide() -> Vec<GroupVt> {
    let mut v = Vec::new();
    vts!(v:
            (A,Z,W,H,B); (B,H,W,Z,A);
            (A,Z,W,H,B,T); (T,B,H,W,Z,A);
            (A,Z,W,H,B,T,P); (P,T,B,H,W,Z,A);
            (A,Z,W,H,B,T,P,Q); (Q,P,T,B,H,W,Z,A);
            (A,Z,W,H,B,T,P,Q,L); (L,Q,P,T,B,H,W,Z,A);
            (A,Z,W,H,B,T,P,Q,L,G); (G,L,Q,P,T,B,H,W,Z,A);
            (A,Z,W,H,B,T,P,Q,L,G,V); (V,G,L,Q,P,T,B,H,W,Z,A);
            (A,Z,W,H,B,T,P,Q,L,G,V,N); (N,V,G,L,Q,P,T,B,H,W,Z,A);
            (A,Z,W,H,B,T,P,Q,L,G,V,N,S); (S,N,V,G,L,Q,P,T,B,H,W,Z,A);
            (A,Z,W,H,B,T,P,Q,L,G,V,N,S,D); (D,S,N,V,G,L,Q,P,T,B,H,W,Z,A);
            (Z,W,H,B,T,P,Q,L,G,V,N,S,D,A); (W,H,B,T,P,Q,L,G,V,N,S,D,A,Z); (H,B,T,P,Q,L,G,V,N,S,D,A,Z,W);
            (B,T,P,Q,L,G,V,N,S,D,A,Z,W,H); (T,P,Q,L,G,V,N,S,D,A,Z,W,H,B); (P,Q,L,G,V,N,S,D,A,Z,W,H,B,T);
            (Q,L,G,V,N,S,D,A,Z,W,H,B,T,P); (L,G,V,N,S,D,A,Z,W,H,B,T,P,Q); (G,V,N,S,D,A,Z,W,H,B,T,P,Q,L);
            (V,N,S,D,A,Z,W,H,B,T,P,Q,L,G); (N,S,D,A,Z,W,H,B,T,P,Q,L,G,V); (S,D,A,Z,W,H,B,T,P,Q,L,G,V,N);
            (D,A,Z,W,H,B,T,P,Q,L,G,V,N,S);
            (Z,W,H,B,T,P,Q,L,G,V,N,S,D); (A,W,H,B,T,P,Q,L,G,V,N,S,D); (A,Z,H,B,T,P,Q,L,G,V,N,S,D);
            (A,Z,W,B,T,P,Q,L,G,V,N,S,D); (A,Z,W,H,T,P,Q,L,G,V,N,S,D); (A,Z,W,H,B,P,Q,L,G,V,N,S,D);
            (A,Z,W,H,B,T,Q,L,G,V,N,S,D); (A,Z,W,H,B,T,P,L,G,V,N,S,D); (A,Z,W,H,B,T,P,Q,G,V,N,S,D);
            (A,Z,W,H,B,T,P,Q,L,V,N,S,D); (A,Z,W,H,B,T,P,Q,L,G,N,S,D); (A,Z,W,H,B,T,P,Q,L,G,V,S,D);
            (A,Z,W,H,B,T,P,Q,L,G,V,N,D);
            (A,Z,W,H,B,T,P,Q,L,G,V,N,S,E);
            Q; L; G; N; S; D; E;
    );
    v
}
