use mcbase::arch::*;
use mcbase::avts;
use mcbase::comps::*;

/// Groups for archetypes used directly: every set appears in several orders, with subgroups for the fuzzy accessors.
pub fn groups() -> Vec<ArchVt> {
    let mut v = Vec::new();
    avts!(v:
        (A,Z,W,H); (H,W,Z,A); (W,A,H,Z); (Z,H,A,W);
        (A,W); (W,A); (A,H); (H,Z); (Z,W); A; W; H; Z; (W,H,A); (A,Z,W);
        B; T; N; (T,P,N); (N,T,P); (P,N,T); (P,T); P; (B,T); (T,B); L; (L,Q); (Q,L); Q; G; (G,B); (B,G);
        (A,Z,W,H,B,T,P,Q,L,G,V,N,S,D); (D,S,N,V,G,L,Q,P,T,B,H,W,Z,A); (Q,L,G,V,N,S,D,A,Z,W,H,B,T,P);
        (A,Z,W,H,B,T,P,Q,L,G,V,N,S); (S,N,V,G,L,Q,P,T,B,H,W,Z,A);
        V; S; D; E; X; Y; (X,N); (N,X); (Y,B); (B,Y); (X,Y); (Y,X);
    );
    v
}
pub fn kinds() -> Vec<ArchKindVt> {
    vec![
        akvt::<A>(), akvt::<Z>(), akvt::<W>(), akvt::<H>(), akvt::<B>(), akvt::<T>(), akvt::<P>(), akvt::<Q>(), akvt::<L>(),
        akvt::<G>(), akvt::<V>(), akvt::<N>(), akvt::<S>(), akvt::<D>(), akvt::<E>(), akvt::<X>(), akvt::<Y>(),
    ]
}
