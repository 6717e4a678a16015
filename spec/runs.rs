//! What a parse builds and does: how a tree stands for a derivation, what its instructions do to a state, where a text stops being viable.
//! Everything here is specification; nothing is assumed.
use vstd::prelude::*;
use crate::errors::*;
use crate::parser_data::*;
use crate::sets::*;
use crate::grammar::*;
use crate::words::*;
use crate::tree::*;
use crate::vms::*;
verus! {

// ---- the tree
/// The node pt.id of t stands for the derivation pt: its text and, in order, its children.
pub open spec fn stands(g: Gram, t: &Tree<String>, pt: PT) -> bool
    decreases pt
{
    &&& t.valid(pt.id)
    &&& t.nodes@[pt.id.node_ptr as int].data@ == (if g.term(pt.x) { g.name(pt.x) } else { Seq::empty() })
    &&& t.kids(pt.id.node_ptr as int).len() == pt.kids.len()
    &&& forall|j: int| #![trigger pt.kids[j]] 0 <= j < pt.kids.len() ==> t.kids(pt.id.node_ptr as int)[j] == pt.kids[j].id.node_ptr && stands(g, t, pt.kids[j])
}
/// no node of pt is one of o
pub open spec fn fresh(o: &Tree<String>, pt: PT) -> bool
    decreases pt
{
    !o.is_live(pt.id.node_ptr as int) && forall|j: int| #![trigger pt.kids[j]] 0 <= j < pt.kids.len() ==> fresh(o, pt.kids[j])
}
/// One subtree was added to o below parent, with the root id; apart from the children of parent nothing changed.
pub open spec fn grown(o: &Tree<String>, t: &Tree<String>, parent: Option<NodeId>, id: NodeId) -> bool {
    &&& t.wf() && t.valid(id) && !o.is_live(id.node_ptr as int)
    &&& t.nodes@[id.node_ptr as int].parent == (match parent { Some(p) => Some(p.node_ptr), None => None })
    &&& forall|x: NodeId| #[trigger] o.valid(x) ==> t.valid(x)
    &&& forall|i: int| #[trigger] o.is_live(i) ==> t.is_live(i) && same_node(o, t, i)
        && t.kids(i) == (if parent is Some && parent->0.node_ptr == i { o.kids(i).push(id.node_ptr) } else { o.kids(i) })
    &&& forall|i: int| #[trigger] t.is_live(i) && !o.is_live(i) && i != id.node_ptr ==> t.nodes@[i].parent is Some
}
pub proof fn lemma_added(o: &Tree<String>, t: &Tree<String>, data: String, parent: Option<NodeId>, id: NodeId)
    requires added(o, t, data, parent, id)
    ensures grown(o, t, parent, id), t.kids(id.node_ptr as int).len() == 0, t.nodes@[id.node_ptr as int].data == data,
{
    assert forall|x: NodeId| #[trigger] o.valid(x) implies t.valid(x) by { if x == id { assert(o.is_live(id.node_ptr as int)); } else { assert(t.valid(x) <==> o.valid(x)); } }
    assert forall|i: int| #[trigger] t.is_live(i) && !o.is_live(i) && i != id.node_ptr implies t.nodes@[i].parent is Some by {
        let x = t.id_of(i);
        assert(t.valid(x) && x != id);
        assert(o.valid(x));
    }
}
pub proof fn lemma_grown(o: &Tree<String>, a: &Tree<String>, b: &Tree<String>, parent: Option<NodeId>, id: NodeId, r: NodeId)
    requires grown(o, a, parent, id), grown(a, b, Some(id), r)
    ensures grown(o, b, parent, id)
{
    assert(a.is_live(id.node_ptr as int));
    assert forall|i: int| #[trigger] o.is_live(i) implies b.is_live(i) && same_node(o, b, i)
        && b.kids(i) == (if parent is Some && parent->0.node_ptr == i { o.kids(i).push(id.node_ptr) } else { o.kids(i) }) by { assert(a.is_live(i)); }
    assert forall|i: int| #[trigger] b.is_live(i) && !o.is_live(i) && i != id.node_ptr implies b.nodes@[i].parent is Some by { if a.is_live(i) { assert(same_node(a, b, i)); } }
}
/// a subtree that the growth does not touch goes on standing
pub proof fn lemma_stands(g: Gram, o: &Tree<String>, t: &Tree<String>, parent: Option<NodeId>, id: NodeId, base: &Tree<String>, pt: PT)
    requires grown(o, t, parent, id), stands(g, o, pt), fresh(base, pt), parent is Some ==> base.is_live(parent->0.node_ptr as int)
    ensures stands(g, t, pt)
    decreases pt
{
    assert(o.valid(pt.id));
    assert(o.is_live(pt.id.node_ptr as int));
    assert forall|j: int| #![trigger pt.kids[j]] 0 <= j < pt.kids.len() implies t.kids(pt.id.node_ptr as int)[j] == pt.kids[j].id.node_ptr && stands(g, t, pt.kids[j]) by {
        lemma_stands(g, o, t, parent, id, base, pt.kids[j]);
    }
}
pub proof fn lemma_fresh(o: &Tree<String>, a: &Tree<String>, pt: PT)
    requires fresh(a, pt), forall|i: int| o.is_live(i) ==> #[trigger] a.is_live(i)
    ensures fresh(o, pt)
    decreases pt
{
    assert forall|j: int| #![trigger pt.kids[j]] 0 <= j < pt.kids.len() implies fresh(o, pt.kids[j]) by { lemma_fresh(o, a, pt.kids[j]); }
}

// ---- the instructions
/// a state (and tree) in the middle
pub open spec fn at<S>(s: S) -> bool { true }
pub open spec fn seen_at(t: Tree<String>) -> bool { true }
/// the instructions ins, in order, on node
pub open spec fn executes<V: VM>(vm: &V, t: Tree<String>, node: NodeId, ins: Seq<V::Tinstrution>, s0: V::Tstate, s1: V::Tstate) -> bool
    decreases ins.len()
{
    if ins.len() == 0 { s1 == s0 }
    else { exists|s: V::Tstate| #[trigger] at(s) && executes(vm, t, node, ins.drop_last(), s0, s) && vm.does(t, s, node, ins.last(), t, s1) }
}
/// What the derivation pt does to a state: its children one after the other, then its own instructions on its node, whose subtree is complete then.
pub open spec fn runs<V: VM>(vm: &V, g: Gram, code: Map<usize, Seq<V::Tinstrution>>, pt: PT, s0: V::Tstate, s1: V::Tstate) -> bool
    decreases pt, 0int
{
    if g.term(pt.x) { s1 == s0 }
    else { exists|s: V::Tstate, t: Tree<String>| #[trigger] at(s) && #[trigger] seen_at(t) && runs_all(vm, g, code, pt.kids, s0, s) && t.wf() && stands(g, &t, pt) && executes(vm, t, pt.id, code[pt.x], s, s1) }
}
pub open spec fn runs_all<V: VM>(vm: &V, g: Gram, code: Map<usize, Seq<V::Tinstrution>>, ts: Seq<PT>, s0: V::Tstate, s1: V::Tstate) -> bool
    decreases ts, 1int
{
    if ts.len() == 0 { s1 == s0 }
    else { exists|s: V::Tstate| #[trigger] at(s) && runs_all(vm, g, code, ts.drop_last(), s0, s) && runs(vm, g, code, ts.last(), s, s1) }
}
pub proof fn lemma_runs_push<V: VM>(vm: &V, g: Gram, code: Map<usize, Seq<V::Tinstrution>>, ts: Seq<PT>, t: PT, s0: V::Tstate, s: V::Tstate, s1: V::Tstate)
    requires runs_all(vm, g, code, ts, s0, s), runs(vm, g, code, t, s, s1)
    ensures runs_all(vm, g, code, ts.push(t), s0, s1)
{
    let u = ts.push(t);
    assert(u.drop_last() =~= ts && u.last() == t);
    assert(at(s));
    assert(runs_all(vm, g, code, u.drop_last(), s0, s) && runs(vm, g, code, u.last(), s, s1));
}

// ---- where a text stops being viable
/// Texts like s up to the q-th character and the one behind it: none of them starts with a word of x that fits there.
pub open spec fn no_fit(g: Gram, start: usize, x: usize, s: Seq<char>, q: int) -> bool {
    forall|t: Seq<char>, n: int| agree(s, t, q) ==> !#[trigger] g.fits(start, x, t, n)
}
/// in texts like s up to the m-th character and the one behind it only the first m characters are a word of x that fits
pub open spec fn sole(g: Gram, start: usize, x: usize, s: Seq<char>, m: int) -> bool {
    forall|t: Seq<char>, n: int| agree(s, t, m) && #[trigger] g.fits(start, x, t, n) ==> n == m
}
/// c characters of s were read for the first j elements of alternative p of x
pub open spec fn on_way(g: Gram, start: usize, x: usize, p: int, s: Seq<char>, j: int, c: int) -> bool {
    forall|t: Seq<char>, n: int| agree(s, t, c) && #[trigger] g.fits(start, x, t, n) ==> c <= n && g.derive(g.alts(x)[p].skip(j), t.subrange(c, n))
}
/// the error names the q-th character behind pos, or the end
pub open spec fn error_at(e: ParserError, s: Seq<char>, q: int, pos: int) -> bool {
    &&& 0 <= q <= s.len()
    &&& match e {
        ParserError::UnexpectedCharError { chr, pos: p, .. } => p == pos + q && chr == (if q < s.len() { s[q] } else { '#' }),
        ParserError::EndOfCharsError { pos: p } => p == pos + q && q == s.len(),
        _ => false,
    }
}
/// reading x stops at q
pub open spec fn stops(g: Gram, start: usize, x: usize, s: Seq<char>, q: int, pos: int, e: ParserError) -> bool {
    &&& error_at(e, s, q, pos)
    &&& no_fit(g, start, x, s, q)
    &&& g.productive() ==> g.begins(x, s.take(q))
}
/// the text s of a terminal cannot go on at q
pub open spec fn breaks(name: Seq<char>, s: Seq<char>, q: int) -> bool {
    &&& 0 <= q < name.len() && q <= s.len() && s.take(q) == name.take(q)
    &&& q < s.len() ==> s[q] != name[q]
}
pub proof fn lemma_agree(s: Seq<char>, t: Seq<char>, c: int, m: int)
    requires agree(s, t, c + m), 0 <= c, 0 <= m
    ensures agree(s, t, c), agree(s.skip(c), t.skip(c), m), s.take(c) == t.take(c)
{
    assert forall|i: int| 0 <= i < c + m implies s[i] == t[i] by { assert(s.take(c + m)[i] == t.take(c + m)[i]); }
    assert(s.take(c) =~= t.take(c));
    assert(s.skip(c).skip(m) =~= s.skip(c + m));
    assert(t.skip(c).skip(m) =~= t.skip(c + m));
    assert(s.skip(c).take(m) =~= t.skip(c).take(m));
    if m > 0 { assert(s.skip(c)[0] == t.skip(c)[0]); } else { assert(s.skip(c).skip(0) =~= s.skip(c)); assert(t.skip(c).skip(0) =~= t.skip(c)); }
}
/// the alternative the table holds for what comes next is the one that was begun
pub proof fn lemma_way_start(g: Gram, start: usize, x: usize, p: int, s: Seq<char>)
    requires !g.term(x), 0 <= p < g.alts(x).len(), forall|q: int| #[trigger] g.takes(start, x, q, look(s)) ==> g.alts(x)[q] == g.alts(x)[p]
    ensures on_way(g, start, x, p, s, 0, 0)
{
    assert forall|t: Seq<char>, n: int| agree(s, t, 0) && #[trigger] g.fits(start, x, t, n) implies 0 <= n && g.derive(g.alts(x)[p].skip(0), t.subrange(0, n)) by {
        let q = g.lemma_takes(start, x, t, n);
        assert(s.skip(0) =~= s && t.skip(0) =~= t);
        assert(g.alts(x)[p].skip(0) =~= g.alts(x)[p]);
        assert(t.subrange(0, n) =~= t.take(n));
    }
}
/// nothing is to be taken before what comes next
pub proof fn lemma_no_way(g: Gram, start: usize, x: usize, s: Seq<char>)
    requires !g.term(x), g.defined(x), forall|q: int| !#[trigger] g.takes(start, x, q, look(s))
    ensures no_fit(g, start, x, s, 0), g.productive() ==> g.begins(x, s.take(0))
{
    assert forall|t: Seq<char>, n: int| agree(s, t, 0) implies !#[trigger] g.fits(start, x, t, n) by {
        if g.fits(start, x, t, n) {
            let q = g.lemma_takes(start, x, t, n);
            assert(s.skip(0) =~= s && t.skip(0) =~= t);
        }
    }
    if g.productive() {
        let w = choose|w: Seq<char>| g.derives(x, w);
        assert(s.take(0) + w =~= w);
    }
}
pub proof fn lemma_way_over(g: Gram, start: usize, x: usize, p: int, s: Seq<char>, c: int)
    requires !g.term(x), 0 <= p < g.alts(x).len(), on_way(g, start, x, p, s, g.alts(x)[p].len() as int, c)
    ensures sole(g, start, x, s, c)
{
    assert forall|t: Seq<char>, n: int| agree(s, t, c) && #[trigger] g.fits(start, x, t, n) implies n == c by {
        assert(g.alts(x)[p].skip(g.alts(x)[p].len() as int) =~= Seq::empty());
        g.lemma_none_left(t.subrange(c, n));
    }
}
pub open spec fn along(g: Gram, x: usize, p: int, s: Seq<char>, j: int, c: int) -> bool {
    !g.term(x) && g.defined(x) && 0 <= p < g.alts(x).len() && 0 <= j < g.alts(x)[p].len() && 0 <= c <= s.len()
}
pub proof fn lemma_way_sub(g: Gram, start: usize, x: usize, p: int, s: Seq<char>, j: int, c: int, m: int)
    requires along(g, x, p, s, j, c), on_way(g, start, x, p, s, j, c), 0 <= m, !g.term(g.alts(x)[p][j]), sole(g, start, g.alts(x)[p][j], s.skip(c), m)
    ensures on_way(g, start, x, p, s, j + 1, c + m)
{
    let a = g.alts(x)[p][j];
    assert forall|t: Seq<char>, n: int| agree(s, t, c + m) && #[trigger] g.fits(start, x, t, n) implies c + m <= n && g.derive(g.alts(x)[p].skip(j + 1), t.subrange(c + m, n)) by {
        lemma_agree(s, t, c, m);
        let k = g.lemma_next(start, x, p, j, t, n, c);
        assert(g.fits(start, a, t.skip(c), k));
    }
}
pub proof fn lemma_way_sub_stop(g: Gram, start: usize, x: usize, p: int, s: Seq<char>, j: int, c: int, q: int)
    requires along(g, x, p, s, j, c), on_way(g, start, x, p, s, j, c), 0 <= q, !g.term(g.alts(x)[p][j]), no_fit(g, start, g.alts(x)[p][j], s.skip(c), q)
    ensures no_fit(g, start, x, s, c + q)
{
    let a = g.alts(x)[p][j];
    assert forall|t: Seq<char>, n: int| agree(s, t, c + q) implies !#[trigger] g.fits(start, x, t, n) by {
        if g.fits(start, x, t, n) {
            lemma_agree(s, t, c, q);
            let k = g.lemma_next(start, x, p, j, t, n, c);
            assert(g.fits(start, a, t.skip(c), k));
        }
    }
}
pub proof fn lemma_way_term(g: Gram, start: usize, x: usize, p: int, s: Seq<char>, j: int, c: int)
    requires along(g, x, p, s, j, c), on_way(g, start, x, p, s, j, c), g.term(g.alts(x)[p][j])
    ensures on_way(g, start, x, p, s, j + 1, c + g.name(g.alts(x)[p][j]).len())
{
    let a = g.alts(x)[p][j]; let m = g.name(a).len() as int;
    assert forall|t: Seq<char>, n: int| agree(s, t, c + m) && #[trigger] g.fits(start, x, t, n) implies c + m <= n && g.derive(g.alts(x)[p].skip(j + 1), t.subrange(c + m, n)) by {
        lemma_agree(s, t, c, m);
        let k = g.lemma_next(start, x, p, j, t, n, c);
        g.lemma_terminal_word(a, t.subrange(c, c + k));
        assert(k == m);
    }
}
pub proof fn lemma_way_term_stop(g: Gram, start: usize, x: usize, p: int, s: Seq<char>, j: int, c: int, q: int)
    requires along(g, x, p, s, j, c), on_way(g, start, x, p, s, j, c), g.term(g.alts(x)[p][j]), breaks(g.name(g.alts(x)[p][j]), s.skip(c), q)
    ensures no_fit(g, start, x, s, c + q)
{
    let a = g.alts(x)[p][j]; let name = g.name(a);
    assert forall|t: Seq<char>, n: int| agree(s, t, c + q) implies !#[trigger] g.fits(start, x, t, n) by {
        if g.fits(start, x, t, n) {
            lemma_agree(s, t, c, q);
            let k = g.lemma_next(start, x, p, j, t, n, c);
            g.lemma_terminal_word(a, t.subrange(c, c + k));
            assert(t[c + q] == name[q]) by { assert(t.subrange(c, c + k)[q] == t[c + q]); }
            assert(t.skip(c + q)[0] == t[c + q]);
            if q < s.skip(c).len() { assert(s.skip(c + q)[0] == s.skip(c)[q]); }
        }
    }
}
/// what was read is the beginning of a word of x
pub proof fn lemma_way_begins(g: Gram, x: usize, p: int, s: Seq<char>, j: int, c: int, q: int)
    requires
        g.ok(), g.complete(), g.rules.contains_key(x), along(g, x, p, s, j, c), g.productive(), g.derive(g.alts(x)[p].take(j), s.take(c)), 0 <= q <= s.skip(c).len(),
        g.begins(g.alts(x)[p][j], s.skip(c).take(q)),
    ensures g.begins(x, s.take(c + q))
{
    let alt = g.alts(x)[p]; let a = alt[j]; let u = s.skip(c).take(q);
    let v = choose|v: Seq<char>| #[trigger] g.derives(a, u + v);
    g.lemma_single(a, u + v);
    let rest = alt.skip(j + 1);
    assert forall|i: int| 0 <= i < rest.len() implies g.term(#[trigger] rest[i]) || g.defined(rest[i]) by {
        assert(rest[i] == alt[j + 1 + i]);
        if !g.term(alt[j + 1 + i]) { assert(g.occ(x, p, j + 1 + i, rest[i])); }
    }
    let w = g.lemma_some_word(rest);
    g.lemma_join(alt.take(j), s.take(c), seq![a], u + v);
    g.lemma_join(alt.take(j) + seq![a], s.take(c) + (u + v), rest, w);
    assert(alt.take(j) + seq![a] + rest =~= alt);
    assert(s.take(c) + (u + v) + w =~= s.take(c + q) + (v + w));
    g.lemma_by_alt(x, p, s.take(c + q) + (v + w));
}
pub proof fn lemma_terminal_begins(g: Gram, a: usize, s: Seq<char>, q: int)
    requires g.term(a), breaks(g.name(a), s, q)
    ensures g.begins(a, s.take(q))
{
    let v = g.name(a).skip(q);
    assert(s.take(q) + v =~= g.name(a));
    g.lemma_terminal_word(a, g.name(a));
}
}
