//! Stand-in for graph-canon (nauty): labels are equal exactly when the graphs
//! are equal as labelled graphs. No claim depends on isomorphism.
use petgraph::{EdgeType, Graph};
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct CanonLabeling {
    n: usize,
    e: Vec<u8>,
}
impl CanonLabeling {
    pub fn new<N, E, Ty: EdgeType>(g: &Graph<N, E, Ty>) -> Self {
        let n = g.node_count();
        let mut e = vec![0u8; n * n];
        for x in g.raw_edges() {
            e[x.source().index() * n + x.target().index()] += 1;
            e[x.target().index() * n + x.source().index()] += 1;
        }
        CanonLabeling { n, e }
    }
}
pub fn canonize<N: Clone, E: Clone, Ty: EdgeType>(g: &Graph<N, E, Ty>) -> Graph<N, E, Ty> {
    g.clone()
}
