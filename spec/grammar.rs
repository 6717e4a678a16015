//! What a grammar means: which elements derive the empty word, what can stand first, what is left recursive.
//! Everything here is specification; nothing is assumed.
use vstd::prelude::*;
use crate::parser_data::*;
use crate::sets::*;
use crate::vms::VM;
verus! {

/// A grammar, seen through the public fields of ParserData: kind and name of each element, right sides of each rule.
pub struct Gram { pub kinds: Seq<ElementType>, pub names: Seq<Seq<char>>, pub rules: Map<usize, Seq<Seq<usize>>> }

impl<T> ParserData<T> where T: VM {
    pub open spec fn gram(&self) -> Gram {
        Gram {
            kinds: self.element_types@,
            names: self.element_data@.map_values(|d: ElementData| d.name@),
            rules: Map::new(self.parse_rules.rules@.dom(), |k: usize| self.prods(k).map_values(|p: Production| production_of(p))),
        }
    }
    /// Every production mentions elements of the grammar only, and only `Production::Empty` has no elements.
    pub open spec fn gram_ok(&self) -> bool {
        &&& self.gram().ok()
        &&& forall|k: usize, p: int| self.parse_rules.rules@.contains_key(k) && 0 <= p < self.prods(k).len() ==>
            prod_ok(#[trigger] self.prods(k)[p])
    }
}
pub open spec fn prod_ok(p: Production) -> bool { p is NotEmpty ==> production_of(p).len() > 0 }

impl Gram {
    pub open spec fn term(&self, x: usize) -> bool { x < self.kinds.len() && self.kinds[x as int] == ElementType::Terminal }
    pub open spec fn name(&self, x: usize) -> Seq<char> { self.names[x as int] }
    pub open spec fn defined(&self, x: usize) -> bool { self.rules.contains_key(x) && !self.term(x) }
    pub open spec fn alts(&self, x: usize) -> Seq<Seq<usize>> { self.rules[x] }
    pub open spec fn ok(&self) -> bool {
        &&& self.names.len() == self.kinds.len()
        &&& forall|x: usize| #[trigger] self.rules.contains_key(x) ==> x < self.kinds.len()
        &&& forall|x: usize, p: int| self.rules.contains_key(x) && 0 <= p < self.alts(x).len() ==> self.known(#[trigger] self.alts(x)[p])
    }
    /// every element of the sequence is one of the grammar
    pub open spec fn known(&self, s: Seq<usize>) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < self.kinds.len() }

    // ---- the empty word: x derives nothing in a derivation tree of depth at most n
    pub open spec fn nullable(&self, x: usize, n: nat) -> bool decreases n, 0int {
        if self.term(x) { self.name(x).len() == 0 }
        else if n == 0 { false }
        else { self.defined(x) && exists|p: int| 0 <= p < self.alts(x).len() && self.all_nullable(#[trigger] self.alts(x)[p], (n - 1) as nat) }
    }
    pub open spec fn all_nullable(&self, s: Seq<usize>, n: nat) -> bool decreases n, 1int {
        forall|j: int| 0 <= j < s.len() ==> self.nullable(#[trigger] s[j], n)
    }
    pub open spec fn nulls(&self, x: usize) -> bool { exists|n: nat| self.nullable(x, n) }
    /// the first k elements of s can all derive the empty word
    pub open spec fn nulls_prefix(&self, s: Seq<usize>, k: int) -> bool { forall|j: int| 0 <= j < k ==> self.nulls(#[trigger] s[j]) }
    pub open spec fn nulls_all(&self, s: Seq<usize>) -> bool { self.nulls_prefix(s, s.len() as int) }
    pub open spec fn alt_nulls(&self, x: usize, p: int) -> bool { 0 <= p < self.alts(x).len() && self.nulls_all(self.alts(x)[p]) }

    // ---- what x can begin with, in a derivation of at most n steps down to the first character
    pub open spec fn first(&self, x: usize, c: char, n: nat) -> bool decreases n {
        if self.term(x) { self.name(x).len() > 0 && self.name(x)[0] == c }
        else if n == 0 { false }
        else { self.defined(x) && exists|p: int, k: int| 0 <= p < self.alts(x).len() && 0 <= k < self.alts(x)[p].len()
            && self.nulls_prefix(self.alts(x)[p], k) && self.first(#[trigger] self.alts(x)[p][k], c, (n - 1) as nat) }
    }
    pub open spec fn starts(&self, x: usize, c: char) -> bool { exists|n: nat| self.first(x, c, n) }
    pub open spec fn starts_at(&self, s: Seq<usize>, k: int, c: char) -> bool { 0 <= k < s.len() && self.nulls_prefix(s, k) && self.starts(s[k], c) }
    pub open spec fn seq_starts(&self, s: Seq<usize>, c: char) -> bool { exists|k: int| self.starts_at(s, k, c) }
    pub open spec fn alt_starts(&self, x: usize, p: int, c: char) -> bool { 0 <= p < self.alts(x).len() && self.seq_starts(self.alts(x)[p], c) }

    // ---- left recursion: b stands in a production of a behind elements that can derive nothing
    pub open spec fn left_at(&self, s: Seq<usize>, k: int, b: usize) -> bool { 0 <= k < s.len() && s[k] == b && self.nulls_prefix(s, k) && !self.term(b) }
    pub open spec fn left_in(&self, s: Seq<usize>, b: usize) -> bool { exists|k: int| self.left_at(s, k, b) }
    pub open spec fn left(&self, a: usize, b: usize) -> bool {
        self.defined(a) && exists|p: int| 0 <= p < self.alts(a).len() && self.left_in(#[trigger] self.alts(a)[p], b)
    }
    /// n steps lead from a to b at the left end
    pub open spec fn left_path(&self, a: usize, b: usize, n: nat) -> bool decreases n {
        if n == 0 { a == b } else { exists|m: usize| #[trigger] self.left(a, m) && self.left_path(m, b, (n - 1) as nat) }
    }
    pub open spec fn left_recursive(&self, x: usize) -> bool { exists|n: nat| n > 0 && #[trigger] self.left_path(x, x, n) }
    pub open spec fn referred(&self, x: usize) -> bool {
        exists|a: usize, p: int, k: int| self.rules.contains_key(a) && 0 <= p < self.alts(a).len() && 0 <= k < self.alts(a)[p].len() && #[trigger] self.alts(a)[p][k] == x
    }

    // ---- FOLLOW: the non-terminal x stands at place k of production p of a
    pub open spec fn occ(&self, a: usize, p: int, k: int, x: usize) -> bool {
        self.rules.contains_key(a) && 0 <= p < self.alts(a).len() && 0 <= k < self.alts(a)[p].len() && self.alts(a)[p][k] == x && !self.term(x)
    }
    /// every non-terminal in a production has a rule
    pub open spec fn complete(&self) -> bool { forall|a: usize, p: int, k: int, x: usize| #[trigger] self.occ(a, p, k, x) ==> self.rules.contains_key(x) }
    /// m comes directly behind x in a production, or the end of input behind the start symbol
    pub open spec fn follow_base(&self, start: usize, x: usize, m: SetMember) -> bool {
        ||| x == start && m is Terminate
        ||| exists|a: usize, p: int, k: int| #[trigger] self.occ(a, p, k, x) && m is Char && self.seq_starts(self.alts(a)[p].skip(k + 1), m->Char_0)
    }
    /// x ends a production of a, so what follows a follows x
    pub open spec fn passes(&self, a: usize, x: usize) -> bool {
        exists|p: int, k: int| #[trigger] self.occ(a, p, k, x) && self.nulls_all(self.alts(a)[p].skip(k + 1))
    }
    pub open spec fn follow(&self, start: usize, x: usize, m: SetMember, n: nat) -> bool decreases n {
        self.follow_base(start, x, m) || n > 0 && exists|a: usize| #[trigger] self.passes(a, x) && self.follow(start, a, m, (n - 1) as nat)
    }
    pub open spec fn follows(&self, start: usize, x: usize, m: SetMember) -> bool { exists|n: nat| self.follow(start, x, m, n) }
    pub open spec fn is_follow(&self, start: usize, x: usize, s: Set<SetMember>) -> bool {
        forall|m: SetMember| #[trigger] s.contains(m) <==> self.follows(start, x, m)
    }

    // ---- sets
    pub open spec fn is_first(&self, x: usize, s: Set<SetMemberWithEmpty>) -> bool {
        &&& forall|c: char| #[trigger] s.contains(SetMemberWithEmpty::Char(c)) <==> self.starts(x, c)
        &&& s.contains(SetMemberWithEmpty::Empty) <==> self.nulls(x)
        &&& !s.contains(SetMemberWithEmpty::Terminate)
    }
    pub open spec fn is_seq_first(&self, q: Seq<usize>, s: Set<SetMemberWithEmpty>) -> bool {
        &&& forall|c: char| #[trigger] s.contains(SetMemberWithEmpty::Char(c)) <==> self.seq_starts(q, c)
        &&& s.contains(SetMemberWithEmpty::Empty) <==> self.nulls_all(q)
        &&& !s.contains(SetMemberWithEmpty::Terminate)
    }
    /// every set is the FIRST set of its element
    pub open spec fn exact(&self, fs: &NamedSets) -> bool {
        forall|x: usize| #[trigger] fs@.contains_key(x) ==> self.defined(x) && self.is_first(x, fs@[x]@)
    }
    /// what stands at the left end below an element with a set has a set, and no element with a set is left recursive
    pub open spec fn grounded(&self, d: Set<usize>) -> bool {
        &&& forall|a: usize, b: usize| d.contains(a) && #[trigger] self.left(a, b) ==> d.contains(b)
        &&& forall|a: usize| d.contains(a) ==> !#[trigger] self.left_recursive(a)
    }
    pub open spec fn in_dom(&self, fs: &NamedSets, x: usize) -> bool { self.term(x) || fs@.contains_key(x) }

    // ---- lemmas
    pub proof fn lemma_null_mono(&self, x: usize, n: nat, m: nat)
        requires self.nullable(x, n), n <= m
        ensures self.nullable(x, m)
        decreases n
    {
        if !self.term(x) {
            let p = choose|p: int| 0 <= p < self.alts(x).len() && self.all_nullable(#[trigger] self.alts(x)[p], (n - 1) as nat);
            assert forall|j: int| 0 <= j < self.alts(x)[p].len() implies self.nullable(#[trigger] self.alts(x)[p][j], (m - 1) as nat) by {
                self.lemma_null_mono(self.alts(x)[p][j], (n - 1) as nat, (m - 1) as nat);
            }
        }
    }
    pub proof fn lemma_null_bound(&self, s: Seq<usize>, k: int) -> (n: nat)
        requires 0 <= k <= s.len(), self.nulls_prefix(s, k)
        ensures forall|j: int| 0 <= j < k ==> self.nullable(#[trigger] s[j], n)
        decreases k
    {
        if k == 0 { 0 } else {
            let a = self.lemma_null_bound(s, k - 1);
            assert(self.nulls(s[k - 1]));
            let y = s[k - 1]; let b = choose|n: nat| self.nullable(y, n);
            let m = if a > b { a } else { b };
            assert forall|j: int| 0 <= j < k implies self.nullable(#[trigger] s[j], m) by {
                if j < k - 1 { self.lemma_null_mono(s[j], a, m); } else { self.lemma_null_mono(s[j], b, m); }
            }
            m
        }
    }
    /// x derives nothing exactly if it is an empty terminal or one of its productions derives nothing
    pub proof fn lemma_nulls(&self, x: usize)
        ensures
            self.term(x) ==> (self.nulls(x) <==> self.name(x).len() == 0),
            !self.term(x) ==> (self.nulls(x) <==> self.defined(x) && exists|p: int| #[trigger] self.alt_nulls(x, p)),
    {
        if self.term(x) { assert(self.nullable(x, 0) == (self.name(x).len() == 0)); }
        else {
            if self.nulls(x) {
                let n = choose|n: nat| self.nullable(x, n);
                let p = choose|p: int| 0 <= p < self.alts(x).len() && self.all_nullable(#[trigger] self.alts(x)[p], (n - 1) as nat);
                assert forall|j: int| 0 <= j < self.alts(x)[p].len() implies self.nulls(#[trigger] self.alts(x)[p][j]) by {
                    assert(self.nullable(self.alts(x)[p][j], (n - 1) as nat));
                }
                assert(self.alt_nulls(x, p));
            }
            if self.defined(x) && exists|p: int| #[trigger] self.alt_nulls(x, p) {
                let p = choose|p: int| #[trigger] self.alt_nulls(x, p);
                let n = self.lemma_null_bound(self.alts(x)[p], self.alts(x)[p].len() as int);
                assert(self.all_nullable(self.alts(x)[p], n));
                assert(self.nullable(x, n + 1));
            }
        }
    }
    pub proof fn lemma_starts(&self, x: usize, c: char)
        ensures
            self.term(x) ==> (self.starts(x, c) <==> self.name(x).len() > 0 && self.name(x)[0] == c),
            !self.term(x) ==> (self.starts(x, c) <==> self.defined(x) && exists|p: int| #[trigger] self.alt_starts(x, p, c)),
    {
        if self.term(x) { assert(self.first(x, c, 0) == (self.name(x).len() > 0 && self.name(x)[0] == c)); }
        else {
            if self.starts(x, c) {
                let n = choose|n: nat| self.first(x, c, n);
                let (p, k) = choose|p: int, k: int| 0 <= p < self.alts(x).len() && 0 <= k < self.alts(x)[p].len()
                    && self.nulls_prefix(self.alts(x)[p], k) && self.first(#[trigger] self.alts(x)[p][k], c, (n - 1) as nat);
                assert(self.starts_at(self.alts(x)[p], k, c));
                assert(self.alt_starts(x, p, c));
            }
            if self.defined(x) && exists|p: int| #[trigger] self.alt_starts(x, p, c) {
                let p = choose|p: int| #[trigger] self.alt_starts(x, p, c);
                let q = self.alts(x)[p]; let k = choose|k: int| self.starts_at(q, k, c);
                let y = self.alts(x)[p][k]; let n = choose|n: nat| self.first(y, c, n);
                assert(self.first(x, c, n + 1));
            }
        }
    }
    pub proof fn lemma_stays(&self, d: Set<usize>, a: usize, b: usize, n: nat)
        requires forall|a: usize, b: usize| d.contains(a) && #[trigger] self.left(a, b) ==> d.contains(b), d.contains(a), self.left_path(a, b, n)
        ensures d.contains(b)
        decreases n
    {
        if n > 0 {
            let m = choose|m: usize| #[trigger] self.left(a, m) && self.left_path(m, b, (n - 1) as nat);
            self.lemma_stays(d, m, b, (n - 1) as nat);
        }
    }
    /// an element whose left neighbours all have sets joins them
    pub proof fn lemma_grounded(&self, d: Set<usize>, x: usize)
        requires self.grounded(d), !d.contains(x), forall|b: usize| #[trigger] self.left(x, b) ==> d.contains(b)
        ensures self.grounded(d.insert(x))
    {
        if self.left_recursive(x) {
            let n = choose|n: nat| n > 0 && #[trigger] self.left_path(x, x, n);
            let m = choose|m: usize| #[trigger] self.left(x, m) && self.left_path(m, x, (n - 1) as nat);
            self.lemma_stays(d, m, x, (n - 1) as nat);
        }
    }
    /// the elements in progress form a path at the left end
    pub open spec fn chain(&self, s: Seq<usize>) -> bool {
        &&& s.no_duplicates()
        &&& forall|i: int| 0 <= i < s.len() ==> !self.term(#[trigger] s[i]) && s[i] < self.kinds.len()
        &&& forall|i: int| 0 < i < s.len() ==> #[trigger] self.left(s[i - 1], s[i])
    }
    pub proof fn lemma_chain_path(&self, s: Seq<usize>, i: int, x: usize)
        requires self.chain(s), 0 <= i < s.len(), self.left(s.last(), x)
        ensures self.left_path(s[i], x, (s.len() - i) as nat)
        decreases s.len() - i
    {
        if i < s.len() - 1 {
            self.lemma_chain_path(s, i + 1, x);
            assert(self.left(s[i + 1 - 1], s[i + 1]));
        } else {
            assert(self.left_path(x, x, 0));
        }
    }
    /// fewer elements are in progress than the grammar has
    pub proof fn lemma_chain_len(&self, s: Seq<usize>)
        requires s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < self.kinds.len()
        ensures s.len() <= self.kinds.len()
    {
        let t = s.map_values(|x: usize| x as int);
        assert(t.no_duplicates());
        vstd::set_lib::lemma_int_range(0, self.kinds.len() as int);
        t.unique_seq_to_set();
        vstd::set_lib::lemma_len_subset(t.to_set(), vstd::set_lib::set_int_range(0, self.kinds.len() as int));
    }
}
}
