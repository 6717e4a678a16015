//! The words of a grammar: derivation trees, the words they spell, and what FIRST and FOLLOW have to do with them.
//! Everything here is specification; nothing is assumed.
use vstd::prelude::*;
use crate::parser_data::*;
use crate::sets::*;
use crate::grammar::*;
use crate::tree::*;
verus! {

/// A derivation tree. `x` is the element the root stands for, `id` the node of a tree that was built for it.
pub struct PT { pub x: usize, pub id: NodeId, pub kids: Seq<PT> }

/// what comes next in s
pub open spec fn look(s: Seq<char>) -> SetMember { if s.len() > 0 { SetMember::Char(s[0]) } else { SetMember::Terminate } }
/// the two texts are alike in the first q characters and in what comes next there
pub open spec fn agree(s: Seq<char>, t: Seq<char>, q: int) -> bool {
    &&& 0 <= q <= s.len() && q <= t.len()
    &&& s.take(q) == t.take(q) && look(s.skip(q)) == look(t.skip(q))
}

impl Gram {
    /// t is a derivation tree for x
    pub open spec fn is_tree(&self, x: usize, t: PT) -> bool decreases t, 0int {
        &&& t.x == x
        &&& if self.term(x) { t.kids.len() == 0 } else { self.defined(x) && exists|p: int| 0 <= p < self.alts(x).len() && self.is_forest(#[trigger] self.alts(x)[p], t.kids) }
    }
    pub open spec fn is_forest(&self, s: Seq<usize>, ts: Seq<PT>) -> bool decreases ts, 1int {
        s.len() == ts.len() && forall|j: int| #![trigger ts[j]] 0 <= j < ts.len() ==> self.is_tree(s[j], ts[j])
    }
    /// the text of the leaves
    pub open spec fn yields(&self, t: PT) -> Seq<char> decreases t, 0int {
        if self.term(t.x) { self.name(t.x) } else { self.flat(t.kids) }
    }
    pub open spec fn flat(&self, ts: Seq<PT>) -> Seq<char> decreases ts, 1int {
        if ts.len() == 0 { Seq::empty() } else { self.flat(ts.drop_last()) + self.yields(ts.last()) }
    }
    pub open spec fn spells(&self, x: usize, t: PT, w: Seq<char>) -> bool { self.is_tree(x, t) && self.yields(t) == w }
    pub open spec fn spell(&self, s: Seq<usize>, ts: Seq<PT>, w: Seq<char>) -> bool { self.is_forest(s, ts) && self.flat(ts) == w }
    /// w is a word of x
    pub open spec fn derives(&self, x: usize, w: Seq<char>) -> bool { exists|t: PT| self.spells(x, t, w) }
    /// w is a word of the sequence s
    pub open spec fn derive(&self, s: Seq<usize>, w: Seq<char>) -> bool { exists|ts: Seq<PT>| self.spell(s, ts, w) }
    /// the first n characters of s are a word of x that can stand where it stands
    pub open spec fn fits(&self, start: usize, x: usize, s: Seq<char>, n: int) -> bool {
        0 <= n <= s.len() && self.derives(x, s.take(n)) && self.follows(start, x, look(s.skip(n)))
    }
    /// as fits, with alternative p
    pub open spec fn fits_alt(&self, start: usize, x: usize, p: int, s: Seq<char>, n: int) -> bool {
        0 <= n <= s.len() && 0 <= p < self.alts(x).len() && self.derive(self.alts(x)[p], s.take(n)) && self.follows(start, x, look(s.skip(n)))
    }
    /// alternative p of k is to be taken before m
    pub open spec fn takes(&self, start: usize, k: usize, p: int, m: SetMember) -> bool {
        0 <= p < self.alts(k).len() && (m is Char && self.seq_starts(self.alts(k)[p], m->Char_0) || self.nulls_all(self.alts(k)[p]) && self.follows(start, k, m))
    }
    /// u is the beginning of a word of x
    pub open spec fn begins(&self, x: usize, u: Seq<char>) -> bool { exists|v: Seq<char>| #[trigger] self.derives(x, u + v) }
    pub open spec fn begin(&self, s: Seq<usize>, u: Seq<char>) -> bool { exists|v: Seq<char>| #[trigger] self.derive(s, u + v) }
    /// every non-terminal that has a rule derives something
    pub open spec fn productive(&self) -> bool { forall|x: usize| #[trigger] self.defined(x) ==> exists|w: Seq<char>| self.derives(x, w) }

    // ---- lemmas
    pub proof fn lemma_flat_push(&self, ts: Seq<PT>, t: PT)
        ensures self.flat(ts.push(t)) == self.flat(ts) + self.yields(t)
    { assert(ts.push(t).drop_last() =~= ts); }
    pub proof fn lemma_flat_add(&self, a: Seq<PT>, b: Seq<PT>)
        ensures self.flat(a + b) == self.flat(a) + self.flat(b)
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); assert(self.flat(a) + self.flat(b) =~= self.flat(a)); }
        else {
            assert((a + b).drop_last() =~= a + b.drop_last());
            self.lemma_flat_add(a, b.drop_last());
            assert(self.flat(a) + self.flat(b) =~= self.flat(a) + self.flat(b.drop_last()) + self.yields(b.last()));
        }
    }
    pub proof fn lemma_flat_one(&self, t: PT)
        ensures self.flat(seq![t]) == self.yields(t)
    {
        assert(seq![t].drop_last() =~= Seq::<PT>::empty());
        assert(self.flat(seq![t].drop_last()) =~= Seq::<char>::empty());
        assert(seq![t].last() == t);
        assert(self.flat(seq![t]) =~= self.yields(t));
    }
    pub proof fn lemma_join(&self, s1: Seq<usize>, w1: Seq<char>, s2: Seq<usize>, w2: Seq<char>)
        requires self.derive(s1, w1), self.derive(s2, w2)
        ensures self.derive(s1 + s2, w1 + w2)
    {
        let a = choose|ts: Seq<PT>| self.spell(s1, ts, w1);
        let b = choose|ts: Seq<PT>| self.spell(s2, ts, w2);
        self.lemma_flat_add(a, b);
        assert(self.is_forest(s1 + s2, a + b)) by {
            assert forall|j: int| #![trigger (a + b)[j]] 0 <= j < (a + b).len() implies self.is_tree((s1 + s2)[j], (a + b)[j]) by {
                if j < a.len() { assert((a + b)[j] == a[j]); } else { assert((a + b)[j] == b[j - a.len()]); }
            }
        }
        assert(self.spell(s1 + s2, a + b, w1 + w2));
    }
    pub proof fn lemma_single(&self, x: usize, w: Seq<char>)
        requires self.derives(x, w)
        ensures self.derive(seq![x], w)
    {
        let t = choose|t: PT| self.spells(x, t, w);
        self.lemma_flat_one(t);
        assert(self.spell(seq![x], seq![t], w));
    }
    pub proof fn lemma_nothing(&self)
        ensures self.derive(Seq::empty(), Seq::empty())
    { assert(self.spell(Seq::empty(), Seq::empty(), Seq::empty())); }
    /// a word of a sequence is a word of its head and a word of the others
    pub proof fn lemma_split(&self, s: Seq<usize>, w: Seq<char>) -> (k: int)
        requires self.derive(s, w), s.len() > 0
        ensures 0 <= k <= w.len(), self.derives(s[0], w.take(k)), self.derive(s.skip(1), w.skip(k))
    {
        let ts = choose|ts: Seq<PT>| self.spell(s, ts, w);
        let (a, b) = (seq![ts[0]], ts.skip(1));
        assert(a + b =~= ts);
        self.lemma_flat_add(a, b);
        self.lemma_flat_one(ts[0]);
        let k = self.yields(ts[0]).len() as int;
        assert(w.take(k) =~= self.yields(ts[0]));
        assert(w.skip(k) =~= self.flat(b));
        assert(self.is_tree(s[0], ts[0]));
        assert(self.spells(s[0], ts[0], w.take(k)));
        assert forall|j: int| #![trigger b[j]] 0 <= j < b.len() implies self.is_tree(s.skip(1)[j], b[j]) by { assert(b[j] == ts[j + 1]); }
        assert(self.spell(s.skip(1), b, w.skip(k)));
        k
    }
    pub proof fn lemma_none_left(&self, w: Seq<char>)
        requires self.derive(Seq::empty(), w)
        ensures w.len() == 0
    { let ts = choose|ts: Seq<PT>| self.spell(Seq::empty(), ts, w); assert(ts.len() == 0); }
    /// a word of a terminal is its text
    pub proof fn lemma_terminal_word(&self, x: usize, w: Seq<char>)
        requires self.term(x)
        ensures self.derives(x, w) <==> w == self.name(x)
    {
        let t = PT { x, id: NodeId { node_ptr: 0, node_pk: 0 }, kids: Seq::empty() };
        if w == self.name(x) { assert(self.spells(x, t, w)); }
    }
    /// a word of a non-terminal is a word of one of its alternatives
    pub proof fn lemma_some_alt(&self, x: usize, w: Seq<char>) -> (p: int)
        requires self.derives(x, w), !self.term(x)
        ensures self.defined(x), 0 <= p < self.alts(x).len(), self.derive(self.alts(x)[p], w)
    {
        let t = choose|t: PT| self.spells(x, t, w);
        let p = choose|p: int| 0 <= p < self.alts(x).len() && self.is_forest(#[trigger] self.alts(x)[p], t.kids);
        assert(self.spell(self.alts(x)[p], t.kids, w));
        p
    }
    pub proof fn lemma_by_alt(&self, x: usize, p: int, w: Seq<char>)
        requires self.defined(x), 0 <= p < self.alts(x).len(), self.derive(self.alts(x)[p], w)
        ensures self.derives(x, w)
    {
        let ts = choose|ts: Seq<PT>| self.spell(self.alts(x)[p], ts, w);
        let t = PT { x, id: NodeId { node_ptr: 0, node_pk: 0 }, kids: ts };
        assert(self.is_forest(self.alts(x)[p], t.kids));
        assert(self.spells(x, t, w));
    }
    // -- the empty word and the first character
    proof fn lemma_tree_null(&self, x: usize, t: PT)
        requires self.is_tree(x, t), self.yields(t).len() == 0
        ensures self.nulls(x)
        decreases t
    {
        self.lemma_nulls(x);
        if !self.term(x) {
            let p = choose|p: int| 0 <= p < self.alts(x).len() && self.is_forest(#[trigger] self.alts(x)[p], t.kids);
            assert forall|j: int| 0 <= j < self.alts(x)[p].len() implies self.nulls(#[trigger] self.alts(x)[p][j]) by {
                self.lemma_flat_part(t.kids, j);
                assert(self.is_tree(self.alts(x)[p][j], t.kids[j]));
                self.lemma_tree_null(self.alts(x)[p][j], t.kids[j]);
            }
            assert(self.alt_nulls(x, p));
        }
    }
    /// where the j-th tree of a forest stands in its text
    proof fn lemma_flat_part(&self, ts: Seq<PT>, j: int)
        requires 0 <= j < ts.len()
        ensures self.flat(ts) == self.flat(ts.take(j)) + self.yields(ts[j]) + self.flat(ts.skip(j + 1))
    {
        assert(ts =~= ts.take(j) + seq![ts[j]] + ts.skip(j + 1));
        self.lemma_flat_add(ts.take(j) + seq![ts[j]], ts.skip(j + 1));
        self.lemma_flat_add(ts.take(j), seq![ts[j]]);
        self.lemma_flat_one(ts[j]);
    }
    /// the first tree of the forest that is not empty
    proof fn lemma_first_part(&self, ts: Seq<PT>) -> (k: int)
        requires self.flat(ts).len() > 0
        ensures 0 <= k < ts.len(), self.flat(ts.take(k)).len() == 0, self.yields(ts[k]).len() > 0, self.yields(ts[k])[0] == self.flat(ts)[0]
        decreases ts.len()
    {
        let d = ts.drop_last();
        if self.flat(d).len() > 0 {
            let k = self.lemma_first_part(d);
            assert(d.take(k) =~= ts.take(k));
            k
        } else {
            let k = ts.len() - 1;
            assert(ts.take(k) =~= d);
            k
        }
    }
    proof fn lemma_forest_null(&self, s: Seq<usize>, ts: Seq<PT>, k: int)
        requires self.is_forest(s, ts), 0 <= k <= s.len(), self.flat(ts.take(k)).len() == 0
        ensures self.nulls_prefix(s, k)
    {
        assert forall|j: int| 0 <= j < k implies self.nulls(#[trigger] s[j]) by {
            self.lemma_flat_part(ts.take(k), j);
            assert(ts.take(k)[j] == ts[j]);
            self.lemma_tree_null(s[j], ts[j]);
        }
    }
    proof fn lemma_tree_starts(&self, x: usize, t: PT)
        requires self.is_tree(x, t), self.yields(t).len() > 0
        ensures self.starts(x, self.yields(t)[0])
        decreases t
    {
        let c = self.yields(t)[0];
        self.lemma_starts(x, c);
        if !self.term(x) {
            let p = choose|p: int| 0 <= p < self.alts(x).len() && self.is_forest(#[trigger] self.alts(x)[p], t.kids);
            let k = self.lemma_first_part(t.kids);
            self.lemma_forest_null(self.alts(x)[p], t.kids, k);
            assert(self.is_tree(self.alts(x)[p][k], t.kids[k]));
            self.lemma_tree_starts(self.alts(x)[p][k], t.kids[k]);
            assert(self.starts_at(self.alts(x)[p], k, c));
            assert(self.alt_starts(x, p, c));
        }
    }
    /// what a word of a sequence says about its FIRST set
    pub proof fn lemma_word_first(&self, s: Seq<usize>, w: Seq<char>)
        requires self.derive(s, w)
        ensures w.len() == 0 ==> self.nulls_all(s), w.len() > 0 ==> self.seq_starts(s, w[0])
    {
        let ts = choose|ts: Seq<PT>| self.spell(s, ts, w);
        if w.len() == 0 {
            assert(ts.take(ts.len() as int) =~= ts);
            self.lemma_forest_null(s, ts, s.len() as int);
        } else {
            let k = self.lemma_first_part(ts);
            self.lemma_forest_null(s, ts, k);
            assert(self.is_tree(s[k], ts[k]));
            self.lemma_tree_starts(s[k], ts[k]);
            assert(self.starts_at(s, k, w[0]));
        }
    }
    pub proof fn lemma_word_null(&self, x: usize)
        requires self.derives(x, Seq::empty())
        ensures self.nulls(x)
    { let t = choose|t: PT| self.spells(x, t, Seq::empty()); self.lemma_tree_null(x, t); }
    /// a fitting alternative is the one to take
    pub proof fn lemma_takes(&self, start: usize, x: usize, s: Seq<char>, n: int) -> (p: int)
        requires self.fits(start, x, s, n), !self.term(x)
        ensures self.defined(x), self.takes(start, x, p, look(s)), self.fits_alt(start, x, p, s, n)
    {
        let p = self.lemma_some_alt(x, s.take(n));
        self.lemma_word_first(self.alts(x)[p], s.take(n));
        if n == 0 { assert(s.skip(0) =~= s); assert(s.take(0).len() == 0); } else { assert(s.take(n)[0] == s[0]); }
        p
    }
    /// what follows x where it stands before the rest of alternative p of a
    pub proof fn lemma_next(&self, start: usize, a: usize, p: int, j: int, s: Seq<char>, n: int, c: int) -> (k: int)
        requires
            self.defined(a), 0 <= p < self.alts(a).len(), 0 <= j < self.alts(a)[p].len(), 0 <= c <= n <= s.len(),
            self.derive(self.alts(a)[p].skip(j), s.subrange(c, n)), self.follows(start, a, look(s.skip(n))),
        ensures
            c <= c + k <= n, self.derives(self.alts(a)[p][j], s.subrange(c, c + k)), self.derive(self.alts(a)[p].skip(j + 1), s.subrange(c + k, n)),
            !self.term(self.alts(a)[p][j]) ==> self.fits(start, self.alts(a)[p][j], s.skip(c), k),
    {
        let q = self.alts(a)[p]; let w = s.subrange(c, n); let x = q[j];
        let k = self.lemma_split(q.skip(j), w);
        assert(q.skip(j).skip(1) =~= q.skip(j + 1));
        assert(w.take(k) =~= s.subrange(c, c + k));
        assert(w.skip(k) =~= s.subrange(c + k, n));
        assert(s.skip(c).take(k) =~= s.subrange(c, c + k));
        assert(s.skip(c).skip(k) =~= s.skip(c + k));
        if !self.term(x) {
            let r = s.subrange(c + k, n);
            self.lemma_word_first(q.skip(j + 1), r);
            assert(self.occ(a, p, j, x));
            let m = look(s.skip(c + k));
            if r.len() > 0 {
                assert(m == SetMember::Char(r[0]));
                assert(self.follow_base(start, x, m));
                assert(self.follow(start, x, m, 0));
            } else {
                assert(self.passes(a, x));
                let d = choose|d: nat| self.follow(start, a, look(s.skip(n)), d);
                assert(self.follow(start, x, m, d + 1));
            }
        }
        k
    }
    /// in a productive grammar every sequence of its elements has a word
    pub proof fn lemma_some_word(&self, s: Seq<usize>) -> (w: Seq<char>)
        requires self.productive(), forall|j: int| 0 <= j < s.len() ==> self.term(#[trigger] s[j]) || self.defined(s[j])
        ensures self.derive(s, w)
        decreases s.len()
    {
        if s.len() == 0 { self.lemma_nothing(); assert(s =~= Seq::empty()); Seq::empty() }
        else {
            let h = s.drop_last(); let x = s.last();
            assert forall|j: int| 0 <= j < h.len() implies self.term(#[trigger] h[j]) || self.defined(h[j]) by { assert(h[j] == s[j]); }
            let a = self.lemma_some_word(h);
            let b = if self.term(x) { self.lemma_terminal_word(x, self.name(x)); self.name(x) } else { assert(self.defined(s[s.len() - 1])); choose|w: Seq<char>| self.derives(x, w) };
            self.lemma_single(x, b);
            self.lemma_join(h, a, seq![x], b);
            assert(h + seq![x] =~= s);
            a + b
        }
    }
}
}
