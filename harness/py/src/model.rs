//! Independent model of the tree shape, read only through child iteration and spans.
use parsa_python::{PyNode, PyTree};

pub struct M<'t> {
    pub node: PyNode<'t>,
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    pub depth: usize,
}

pub struct Model<'t> {
    pub nodes: Vec<M<'t>>,
    pub leaves: Vec<usize>,
}

pub fn model(tree: &PyTree) -> Model<'_> {
    let mut m = Model { nodes: vec![], leaves: vec![] };
    let mut stack: Vec<(PyNode<'_>, Option<usize>, usize)> = vec![(tree.root_node(), None, 0)];
    while let Some((n, p, d)) = stack.pop() {
        let i = m.nodes.len();
        m.nodes.push(M { node: n, parent: p, children: vec![], depth: d });
        if let Some(p) = p {
            m.nodes[p].children.push(i);
        }
        let cs: Vec<_> = n.iter_children().collect();
        if n.is_leaf() {
            m.leaves.push(i);
        }
        for c in cs.into_iter().rev() {
            stack.push((c, Some(i), d + 1));
        }
    }
    m
}

pub fn has_error(tree: &PyTree) -> Option<String> {
    for n in tree.nodes() {
        if n.is_error_recovery_node() {
            return Some(format!("{} at {}..{} {:?}", n.type_str(), n.start(), n.end(), n.as_code()));
        }
        if n.type_str() == "broken_scope" {
            return Some(format!("broken_scope at {}", n.start()));
        }
    }
    None
}

/// A readable dump of the whole tree with types and spans.
pub fn dump_tree(tree: &PyTree) -> String {
    let m = model(tree);
    let mut o = String::new();
    for n in &m.nodes {
        o.push_str(&" ".repeat(n.depth));
        o.push_str(&format!("{}@{}-{}", n.node.type_str(), n.node.start(), n.node.end()));
        if n.node.is_leaf() {
            o.push_str(&format!(" {:?}", n.node.as_code()));
        }
        o.push('\n');
    }
    o
}
