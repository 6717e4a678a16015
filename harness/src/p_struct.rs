//! P16-P20: tree, graph, named graph.
use crate::check;
use crate::util::*;
use henriks_parsing_project::errors::GrammarError;
use henriks_parsing_project::named_graph::GraphNamedNodes;
use henriks_parsing_project::simple_graph::Graph;
use henriks_parsing_project::tree::{NodeId, Tree, TreeError};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
struct MNode { id: NodeId, parent: Option<usize>, kids: Vec<usize>, data: usize, alive: bool }
fn preorder(m: &[MNode], i: usize, out: &mut Vec<usize>) { for k in &m[i].kids { out.push(*k); preorder(m, *k, out); } }

fn tree_check(t: &mut Tree<usize>, m: &[MNode], hist: &Vec<String>, rng: &mut Rng) -> Result<(), String> {
    for (i, n) in m.iter().enumerate() {
        check!(t.node_exists(n.id) == n.alive, "history {hist:?}: node {i} exists: {}, expected {}", t.node_exists(n.id), n.alive);
        if !n.alive {
            check!(t.get_node(n.id).is_err(), "history {hist:?}: removed node {i} is still readable");
            check!(t.get_node_mut(n.id).is_err(), "history {hist:?}: removed node {i} is still writable");
            check!(t.get_children(n.id).is_empty(), "history {hist:?}: removed node {i} has children");
            check!(t.get_descendants(n.id).is_empty(), "history {hist:?}: removed node {i} has descendants");
            check!(t.get_by_path_or_none(n.id, vec![].into_iter()).is_err(), "history {hist:?}: removed node {i} has a path");
            continue;
        }
        let node = t.get_node(n.id).map_err(|e| format!("history {hist:?}: node {i}: {e}"))?;
        check!(node.data == n.data, "history {hist:?}: data of node {i} is {}, expected {}", node.data, n.data);
        let kids: Vec<NodeId> = n.kids.iter().map(|k| m[*k].id).collect();
        check!(t.get_children(n.id) == kids, "history {hist:?}: children of {i} are {:?}, expected {kids:?}", t.get_children(n.id));
        for k in (0..kids.len() + 2).chain([rng.far(kids.len())]) {
            let want = n.kids.get(k).map(|x| m[*x].data);
            check!(t.get_nth_child(node, k).ok().map(|x| x.data) == want, "history {hist:?}: child {k} of {i}");
            check!(t.get_nth_child_or_none(node, k).map(|x| x.data) == want, "history {hist:?}: child {k} of {i} (or none)");
        }
        let d = t.get_descendants(n.id);
        let ds: HashSet<NodeId> = d.iter().copied().collect();
        let mut want = vec![];
        preorder(m, i, &mut want);
        let ws: HashSet<NodeId> = want.iter().map(|x| m[*x].id).collect();
        check!(d.len() == ds.len() && ds == ws, "history {hist:?}: descendants of {i} are {d:?}, expected {ws:?}");
        // random path
        let mut at = Some(i);
        let mut path = vec![];
        for _ in 0..rng.below(4) {
            let k = if rng.chance(1, 12) { rng.far(at.map_or(0, |a| m[a].kids.len())) } else { rng.below(3) };
            path.push(k);
            at = at.and_then(|a| m[a].kids.get(k).copied());
        }
        let got = t.get_by_path_or_none(n.id, path.clone().into_iter()).map_err(|e| format!("history {hist:?}: path {path:?} from {i}: {e}"))?.map(|x| x.data);
        check!(got == at.map(|a| m[a].data), "history {hist:?}: path {path:?} from {i} gave {got:?}");
    }
    let ids: HashSet<NodeId> = m.iter().map(|n| n.id).collect();
    check!(ids.len() == m.len(), "history {hist:?}: two nodes got the same id");
    for bogus in [NodeId { node_ptr: m.len() + 5, node_pk: 0 }, NodeId { node_ptr: m.len(), node_pk: rng.below(m.len() + 2) }, NodeId { node_ptr: rng.below(m.len() + 1), node_pk: rng.below(m.len() + 3) }, NodeId { node_ptr: usize::MAX, node_pk: usize::MAX }, NodeId { node_ptr: rng.below(m.len() + 1), node_pk: rng.far(m.len()) }, NodeId { node_ptr: rng.far(m.len()), node_pk: rng.below(m.len() + 1) }] {
        if ids.contains(&bogus) { continue; }
        check!(!t.node_exists(bogus) && t.get_node(bogus).is_err() && t.get_node_mut(bogus).is_err(), "history {hist:?}: the id {bogus} was never given out and exists");
        check!(t.get_children(bogus).is_empty() && t.get_descendants(bogus).is_empty() && t.get_by_path_or_none(bogus, vec![].into_iter()).is_err(), "history {hist:?}: the id {bogus} was never given out and leads somewhere");
    }
    Ok(())
}
fn tree_history(rng: &mut Rng, size: usize, removes: bool) -> Outcome {
    let mut t = Tree::<usize>::new();
    let mut m: Vec<MNode> = vec![];
    let mut hist = vec![];
    let mut removed = false;
    let roots = *rng.pick(&[8, 8, 3, 2]);
    let jumbo = rng.jumbo(2000);
    let steps = 1 + jumbo.unwrap_or(rng.count(3 + 3 * size));
    let (wide, deep) = (rng.chance(1, 2), rng.chance(1, 2));
    for step in 0..steps {
        let alive: Vec<usize> = (0..m.len()).filter(|i| m[*i].alive).collect();
        let dead: Vec<usize> = (0..m.len()).filter(|i| !m[*i].alive).collect();
        let op = rng.below(10);
        if removes && op < 3 && (jumbo.is_none() || step + 3 > steps) && !alive.is_empty() {
            let i = *rng.pick(&alive);
            hist.push(format!("remove {i}"));
            no_panic(|| t.remove_branch(m[i].id)).map_err(|e| format!("history {hist:?}: panicked: {e}"))?.map_err(|e| format!("history {hist:?}: {e}"))?;
            let mut all = vec![];
            preorder(&m, i, &mut all);
            all.push(i);
            for k in all { m[k].alive = false; }
            if let Some(p) = m[i].parent { m[p].kids.retain(|k| *k != i); }
            removed = true;
        } else if removes && op == 3 && !dead.is_empty() {
            let i = *rng.pick(&dead);
            hist.push(format!("remove again {i}"));
            check!(no_panic(|| t.remove_branch(m[i].id)).map_err(|e| format!("history {hist:?}: panicked: {e}"))?.is_err(), "history {hist:?}: removing a removed node succeeded");
        } else if op == 4 && !dead.is_empty() {
            let i = *rng.pick(&dead);
            hist.push(format!("add under removed {i}"));
            check!(no_panic(|| t.add_node(0, Some(m[i].id))).map_err(|e| format!("history {hist:?}: panicked: {e}"))?.is_err(), "history {hist:?}: adding under a removed node succeeded");
        } else if op == 5 {
            hist.push("add under a node that never was".into());
            let bogus = NodeId { node_ptr: rng.below(m.len() + 3), node_pk: if rng.chance(1, 2) { m.len() + 7 } else { rng.below(m.len() + 1) } };
            if m.iter().any(|n| n.id == bogus) { continue; }
            if removes && rng.chance(1, 2) { check!(t.remove_branch(bogus).is_err(), "history {hist:?}: {bogus} removed"); }
            check!(t.add_node(0, Some(bogus)).is_err(), "history {hist:?}: {bogus} took a child");
        } else if op == 6 && !alive.is_empty() {
            let i = *rng.pick(&alive);
            let d = 1000 + hist.len();
            hist.push(format!("write {i}"));
            t.get_node_mut(m[i].id).map_err(|e| format!("history {hist:?}: {e}"))?.data = d;
            m[i].data = d;
        } else {
            let parent = if jumbo.is_some() && alive.len() > 1 && rng.chance(3, 4) { Some(if wide { alive[0] } else if deep { alive[alive.len() - 1] } else { alive[alive.len() / 2] }) } else if alive.is_empty() || rng.chance(1, roots) { None } else { Some(*rng.pick(&alive)) };
            let data = 10 * m.len();
            hist.push(format!("add under {parent:?}"));
            let id = no_panic(|| t.add_node(data, parent.map(|p| m[p].id))).map_err(|e| format!("history {hist:?}: panicked: {e}"))?.map_err(|e| format!("history {hist:?}: {e}"))?;
            let ix = m.len();
            m.push(MNode { id, parent, kids: vec![], data, alive: true });
            if let Some(p) = parent { m[p].kids.push(ix); }
        }
        if jumbo.is_some() && step + 1 != steps { continue; }
        no_panic(|| tree_check(&mut t, &m, &hist, rng)).map_err(|e| format!("history {hist:?}: panicked: {e}"))??;
    }
    Ok(if removes { removed } else { m.len() > 2 })
}
pub fn p16(rng: &mut Rng, size: usize) -> Outcome { tree_history(rng, size, false) }
pub fn p17(rng: &mut Rng, size: usize) -> Outcome { tree_history(rng, size + 3, true) }
pub fn tree_error_kinds() -> Outcome {
    let mut t = Tree::<usize>::new();
    let a = t.add_node(1, None).unwrap();
    t.remove_branch(a).unwrap();
    check!(matches!(t.get_node(a), Err(TreeError::NodeWasRemoved { .. })), "removed node: other error");
    Ok(true)
}

type G = Vec<(usize, BTreeMap<usize, usize>)>; // (data, edges by id)
fn graph_check(g: &Graph<usize>, m: &G, hist: &Vec<String>, rng: &mut Rng) -> Result<(), String> {
    check!(g.nodes.len() == m.len(), "history {hist:?}: {} nodes, expected {}", g.nodes.len(), m.len());
    for i in 0..m.len() {
        check!(g.nodes[i].data == m[i].0, "history {hist:?}: data of node {i}");
        let want: Vec<usize> = m[i].1.iter().rev().map(|(_, t)| *t).collect();
        let got: Vec<usize> = g.successors(i).take(m[i].1.len() + 3).collect();
        check!(got == want, "history {hist:?}: successors of {i} are {got:?}, expected {want:?} (highest edge id first)");
        let ids: Vec<(usize, usize)> = g.connected_edges(i).take(m[i].1.len() + 3).map(|e| (g.edges[e].id, g.edges[e].target)).collect();
        let want: Vec<(usize, usize)> = m[i].1.iter().rev().map(|(a, b)| (*a, *b)).collect();
        check!(ids == want, "history {hist:?}: edges of {i} are {ids:?}, expected {want:?}");
        for id in (0..m[i].1.keys().max().map_or(2, |x| x.saturating_add(2).min(if m[i].1.len() > 12 { 500 } else { 14 }))).chain([rng.far(0), rng.far(9)]) {
            check!(g.find_node_index(i, id) == m[i].1.get(&id).copied(), "history {hist:?}: edge {id} of {i} leads to {:?}, expected {:?}", g.find_node_index(i, id), m[i].1.get(&id));
            check!(g.find_node(i, id).map(|n| n.data) == m[i].1.get(&id).map(|t| m[*t].0), "history {hist:?}: node at edge {id} of {i}");
        }
        let mut at = Some(i);
        let mut path = vec![];
        for _ in 0..rng.below(5) {
            let id = match at { Some(a) if !m[a].1.is_empty() && rng.chance(4, 5) => *rng.pick(&m[a].1.keys().copied().collect::<Vec<_>>()), _ => if rng.chance(1, 8) { rng.far(0) } else { rng.below(4) } };
            path.push(id);
            at = at.and_then(|a| m[a].1.get(&id).copied());
        }
        check!(g.find_node_index_by_path(i, path.clone().into_iter()) == at, "history {hist:?}: path {path:?} from {i} leads to {:?}, expected {at:?}", g.find_node_index_by_path(i, path.clone().into_iter()));
        check!(g.find_node_by_path(i, path.clone().into_iter()).map(|n| n.data) == at.map(|a| m[a].0), "history {hist:?}: node at path {path:?} from {i}");
    }
    Ok(())
}
fn rand_graph(rng: &mut Rng, steps: usize, hist: &mut Vec<String>, base: usize, check: bool) -> Result<(Graph<usize>, G), String> {
    let mut g = Graph::<usize>::new();
    let mut m: G = vec![];
    for step in 0..steps {
        graph_op(&mut g, &mut m, rng, hist, base)?;
        if check && (steps < 120 || step + 1 == steps) { no_panic(|| graph_check(&g, &m, hist, rng)).map_err(|e| format!("history {hist:?}: panicked: {e}"))??; }
    }
    Ok((g, m))
}
fn graph_op(g: &mut Graph<usize>, m: &mut G, rng: &mut Rng, hist: &mut Vec<String>, base: usize) -> Result<(), String> {
    let op = rng.below(8);
    if m.is_empty() || op < 2 {
        let d = base + m.len();
        hist.push("node".into());
        let i = g.add_node(d);
        check!(i == m.len(), "history {hist:?}: new node got number {i}");
        m.push((d, BTreeMap::new()));
    } else {
        let a = if hist.len() > 110 && rng.chance(2, 3) { 0 } else { rng.below(m.len()) };
        let b = rng.below(m.len());
        if op < 5 {
            let id = if let Some(n) = rng.num() { n.min(1 << 40) as usize } else if rng.chance(1, 20) { 100 + rng.below(9) } else { rng.below(9) };
            hist.push(format!("edge {a}->{b} id {id}"));
            let free = !m[a].1.contains_key(&id);
            let r = no_panic(|| g.try_add_edge_with_id(a, b, id)).map_err(|e| format!("history {hist:?}: panicked: {e}"))?;
            check!(r == free, "history {hist:?}: returned {r}");
            if free { m[a].1.insert(id, b); }
        } else {
            hist.push(format!("edge {a}->{b}"));
            let id = m[a].1.keys().max().map_or(0, |x| x + 1);
            no_panic(|| g.add_edge(a, b)).map_err(|e| format!("history {hist:?}: panicked: {e}"))?;
            m[a].1.insert(id, b);
        }
    }
    Ok(())
}
pub fn p18(rng: &mut Rng, size: usize) -> Outcome {
    let mut hist = vec![];
    let steps = 1 + rng.jumbo(1000).map_or_else(|| rng.count(3 + 3 * size), |n| 3 * n);
    let (g, _) = rand_graph(rng, steps, &mut hist, 0, true)?;
    Ok(g.edges.len() > 1)
}
pub fn p19(rng: &mut Rng, size: usize) -> Outcome {
    let mut hist = vec![];
    let k = 1 + rng.jumbo(1000).map_or_else(|| rng.count(2 + 2 * size), |n| 3 * n);
    let (mut g, mut m) = rand_graph(rng, k, &mut hist, 0, false)?;
    for round in 1..=1 + rng.count(2).min(5) {
        hist.push("other graph:".into());
        let k = 1 + rng.jumbo(1000).map_or_else(|| rng.count(2 + 2 * size), |n| 3 * n);
        let (h, hm) = rand_graph(rng, k, &mut hist, 1000 * round, false)?;
        let this = rng.below(m.len());
        let other = rng.below(hm.len());
        hist.push(format!("embed: node {other} of it under {this}"));
        no_panic(|| g.add_graph_at_node(h, this, other)).map_err(|e| format!("history {hist:?}: panicked: {e}"))?;
        let off = m.len();
        for (d, e) in hm { m.push((d, e.into_iter().map(|(i, t)| (i, t + off)).collect())); }
        let id = m[this].1.keys().max().map_or(0, |x| x + 1);
        m[this].1.insert(id, other + off);
        no_panic(|| graph_check(&g, &m, &hist, rng)).map_err(|e| format!("history {hist:?}: panicked: {e}"))??;
        for _ in 0..rng.below(4) {
            graph_op(&mut g, &mut m, rng, &mut hist, 0)?;
            no_panic(|| graph_check(&g, &m, &hist, rng)).map_err(|e| format!("history {hist:?}: panicked: {e}"))??;
        }
    }
    Ok(true)
}
pub fn p20(rng: &mut Rng, size: usize) -> Outcome {
    let mut g = GraphNamedNodes::<usize>::new();
    let mut ix: BTreeMap<usize, usize> = BTreeMap::new(); // name -> number
    let mut data: Vec<usize> = vec![];
    let mut edges: Vec<Vec<usize>> = vec![];
    let mut hist = vec![];
    let jumbo = rng.jumbo(1500);
    let names = jumbo.map_or(7, |n| if rng.chance(1, 2) { 7 } else { n });
    let steps = 1 + jumbo.map_or_else(|| rng.count(3 + 3 * size), |n| 3 * n);
    for step in 0..steps {
        let a = if jumbo.is_some() && rng.chance(1, 2) { 3 } else { rng.below(names) * 3 };
        let b = rng.below(names) * 3;
        match rng.below(6) {
            0 | 1 => {
                let d = rng.num().map_or_else(|| rng.below(1000), |x| x as usize);
                hist.push(format!("node {a}"));
                let r = g.add_node(a, d);
                if ix.contains_key(&a) { check!(matches!(r, Err(GrammarError::GraphNodeAlreadyExistsError { node_name }) if node_name == a), "history {hist:?}: gave {r:?}"); }
                else { check!(matches!(r, Ok(i) if i == data.len()), "history {hist:?}: gave {r:?}"); ix.insert(a, data.len()); data.push(d); edges.push(vec![]); }
            }
            2 | 3 => {
                hist.push(format!("edge {a}->{b}"));
                let r = no_panic(|| g.add_edge(a, b)).map_err(|e| format!("history {hist:?}: panicked: {e}"))?;
                match (ix.get(&a), ix.get(&b)) {
                    (Some(x), Some(y)) => { check!(r.is_ok(), "history {hist:?}: gave {r:?}"); edges[*x].insert(0, *y); }
                    (x, _) => { let bad = if x.is_none() { a } else { b }; check!(matches!(r, Err(GrammarError::GraphNodeDoesNotExistsError { node_name }) if node_name == bad), "history {hist:?}: gave {r:?}") }
                }
            }
            4 => {
                hist.push(format!("write {a}"));
                let r = g.get_node_mut(a).map(|n| { n.data += 1; });
                check!(r.is_ok() == ix.contains_key(&a), "history {hist:?}: gave {r:?}");
                if let Some(i) = ix.get(&a) { data[*i] += 1; }
            }
            _ => {
                let i = rng.below(data.len() + 2);
                hist.push(format!("write number {i}"));
                let r = g.get_node_mut_by_index(i).map(|n| { n.data += 7; });
                check!(r.is_ok() == (i < data.len()), "history {hist:?}: gave {r:?}");
                if i < data.len() { data[i] += 7; }
            }
        }
        if jumbo.is_some() && step + 1 != steps { continue; }
        let r: Result<(), String> = no_panic(|| {
            check!(g.names.len() == ix.len() && ix.iter().all(|(k, v)| g.names.get(k) == Some(v)), "history {hist:?}: names {:?}, expected {ix:?}", g.names);
            for n in (0..names).map(|x| x * 3).chain([rng.far(3 * names)]) {
                let want = ix.get(&n);
                check!(g.get_node(n).ok().map(|x| x.data) == want.map(|i| data[*i]), "history {hist:?}: node {n}");
                let s = g.successors(n).ok().map(|s| s.take(9000).map(|(i, d)| (i, d.data)).collect::<Vec<_>>());
                check!(s == want.map(|i| edges[*i].iter().map(|t| (*t, data[*t])).collect::<Vec<_>>()), "history {hist:?}: successors of {n}: {s:?}");
                let s = g.successor_indices(n).ok().map(|s| s.take(9000).collect::<Vec<_>>());
                check!(s == want.map(|i| edges[*i].clone()), "history {hist:?}: successor numbers of {n}: {s:?}");
            }
            for i in (0..data.len() + 2).chain([rng.far(data.len())]) {
                let r = g.get_node_by_index(i);
                check!(r.as_ref().ok().map(|x| x.data) == data.get(i).copied(), "history {hist:?}: node number {i}");
                if i >= data.len() { check!(matches!(r, Err(GrammarError::GraphIndexOutOfBounds { index }) if index == i), "history {hist:?}: node number {i}: other error"); }
            }
            Ok(())
        }).map_err(|e| format!("history {hist:?}: panicked: {e}"))?;
        r?;
    }
    Ok(ix.len() > 1)
}
