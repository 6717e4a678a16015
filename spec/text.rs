//! The form of a grammar text, and what it means: the rules it writes down and where the ignored symbol goes.
use vstd::prelude::*;
use crate::parser_data::*;
use crate::spec::*;
use crate::stdspec::*;
use crate::vms::VM;
use crate::grammar::*;
verus! {

/// one alternative: its elements with their kind; none for '#'
pub type AltText = Seq<(Seq<char>, ElementType)>;
/// the setting of a rule: none, $[IGNORE:#] or $[IGNORE:name]
pub enum Setting { Inherit, Off, Use(Seq<char>) }
pub struct RuleText { pub name: Seq<char>, pub setting: Setting, pub alts: Seq<AltText>, pub section: Option<Seq<char>> }
/// $IGNORE: name; or a rule
pub enum Item { Default(Seq<char>), Rule(RuleText) }

// ---- the form. Each function reads a piece at the front of s: what it says and how long it is, or None if s does not begin with one.
pub open spec fn shift<A>(r: Option<(A, nat)>, c: nat) -> Option<(A, nat)> {
    match r { None => None, Some((a, n)) => Some((a, n + c)) }
}
pub open spec fn what<A>(r: Option<(A, nat)>) -> A { (r->0).0 }
pub open spec fn size<A>(r: Option<(A, nat)>) -> nat { (r->0).1 }
pub open spec fn starts(s: Seq<char>, c: char) -> bool { s.len() > 0 && s[0] == c }
/// s without the white space at its front
pub open spec fn trim(s: Seq<char>) -> Seq<char> { s.skip(ws_len(s) as int) }
pub open spec fn name_at(s: Seq<char>) -> Option<(Seq<char>, nat)> {
    if s.len() > 0 && is_alpha(s[0]) { let n = 1 + name_len(s.skip(1)); Some((s.take(n as int), n)) } else { None }
}
/// length of a literal up to its first quote that no backslash escapes; e: the char before s escapes what follows
pub open spec fn lit_len(s: Seq<char>, e: bool) -> Option<nat> decreases s.len() {
    if s.len() == 0 { None }
    else if s[0] == '"' && !e { Some(0) }
    else { match lit_len(s.drop_first(), s[0] == '\\' && !e) { None => None, Some(n) => Some(n + 1) } }
}
pub open spec fn plus(r: Option<nat>, n: nat) -> Option<nat> { match r { None => None, Some(k) => Some(k + n) } }
pub proof fn lemma_lit_step(s: Seq<char>, n: nat, e: bool)
    requires n < s.len(), lit_len(s, false) == plus(lit_len(s.skip(n as int), e), n)
    ensures
        s[n as int] == '"' && !e ==> lit_len(s, false) == Some(n),
        !(s[n as int] == '"' && !e) ==> lit_len(s, false) == plus(lit_len(s.skip(n as int + 1), s[n as int] == '\\' && !e), n + 1),
{
    assert(s.skip(n as int).drop_first() =~= s.skip(n as int + 1));
    assert(lit_len(s.skip(n as int), e) == (if s[n as int] == '"' && !e { Some(0nat) } else { plus(lit_len(s.skip(n as int).drop_first(), s[n as int] == '\\' && !e), 1) }));
}
/// an element, or None inside for '#'
pub open spec fn element(s: Seq<char>) -> Option<(Option<(Seq<char>, ElementType)>, nat)> {
    if s.len() == 0 { None }
    else if s[0] == '#' { Some((None, 1)) }
    else if s[0] == '"' { match lit_len(s.skip(1), false) { None => None, Some(n) => Some((Some((s.skip(1).take(n as int), ElementType::Terminal)), n + 2)) } }
    else { match name_at(s) { None => None, Some((v, n)) => Some((Some((v, ElementType::NonTerminal)), n)) } }
}
/// what looking for an element takes away where there is none: all of the text after a quote that is never closed (no rule can end then)
pub open spec fn eaten(s: Seq<char>) -> nat { if starts(s, '"') { s.len() } else { 0 } }
/// the rest of an alternative whose first elements are acc
pub open spec fn alternative(s: Seq<char>, acc: AltText) -> Option<(AltText, nat)> decreases s.len() {
    let w = ws_len(s);
    let r = trim(s);
    if w > s.len() { None } else {
        match element(r) {
            None => if acc.len() > 0 { Some((acc, w + eaten(r))) } else { None },
            Some((None, n)) => if acc.len() == 0 { Some((acc, w + n)) } else { None },
            Some((Some(e), n)) => if n == 0 || n > r.len() { None } else { shift(alternative(r.skip(n as int), acc.push(e)), w + n) },
        }
    }
}
/// further alternatives, each behind a '|'
pub open spec fn more(s: Seq<char>, acc: Seq<AltText>) -> Option<(Seq<AltText>, nat)> decreases s.len() {
    let w = ws_len(s);
    let r = trim(s);
    if w > s.len() { None } else if starts(r, '|') {
        let r1 = r.skip(1);
        let w1 = ws_len(r1);
        if w1 > r1.len() { None } else {
            match alternative(trim(r1), Seq::empty()) {
                None => None,
                Some((a, n)) => if n > trim(r1).len() { None } else { shift(more(trim(r1).skip(n as int), acc.push(a)), w + 1 + w1 + n) },
            }
        }
    } else { Some((acc, w)) }
}
pub open spec fn alternatives(s: Seq<char>) -> Option<(Seq<AltText>, nat)> {
    match alternative(s, Seq::empty()) {
        None => None,
        Some((a, n)) => shift(more(s.skip(n as int), seq![a]), n),
    }
}
/// the bracket that ends a setting
pub open spec fn closed_with<A>(s: Seq<char>, a: A) -> Option<(A, nat)> { if starts(trim(s), ']') { Some((a, ws_len(s) + 1)) } else { None } }
pub open spec fn setting(s: Seq<char>) -> Option<(Setting, nat)> {
    if !starts(s, '$') { Some((Setting::Inherit, 0)) }
    else if !starts(s.skip(1), '[') { None }
    else { let s1 = s.skip(1).skip(1); match name_at(trim(s1)) { None => None, Some((v, n)) => {
        let s2 = trim(s1).skip(n as int);
        if !starts(trim(s2), ':') { None } else { let s3 = trim(s2).skip(1); shift(set_to(v, trim(s3)), 2 + ws_len(s1) + n + ws_len(s2) + 1 + ws_len(s3)) }
    } } }
}
pub open spec fn set_to(v: Seq<char>, s: Seq<char>) -> Option<(Setting, nat)> {
    if v != "IGNORE"@ { closed_with(s, Setting::Inherit) }
    else if starts(s, '#') { shift(closed_with(s.skip(1), Setting::Off), 1) }
    else { match name_at(s) { None => None, Some((u, m)) => shift(closed_with(s.skip(m as int), Setting::Use(u)), m) } }
}
/// a section of instructions, which a brace ends that no backslash stands before
pub open spec fn section(s: Seq<char>) -> Option<(Option<Seq<char>>, nat)> {
    if !starts(s, '{') { Some((None, 0)) } else {
        let r = trim(s.skip(1));
        let t = visible(r, Some('}'), Some('\\'), false);
        if starts(r.skip(t.len() as int), '}') { Some((Some(t), 1 + ws_len(s.skip(1)) + t.len() + 1)) } else { None }
    }
}
/// the arrow and what follows it
pub open spec fn arrow(s: Seq<char>) -> Option<nat> {
    let w = ws_len(s);
    let r = trim(s);
    if starts(r, '-') && starts(r.skip(1), '>') { Some(w + 2 + ws_len(r.skip(2))) } else { None }
}
pub open spec fn rule(s: Seq<char>) -> Option<(RuleText, nat)> {
    match name_at(s) { None => None, Some((name, n0)) => { let s1 = s.skip(n0 as int);
    match arrow(s1) { None => None, Some(n1) => { let s2 = s1.skip(n1 as int);
    match setting(s2) { None => None, Some((setting, n2)) => { let s3 = s2.skip(n2 as int);
    match alternatives(s3) { None => None, Some((alts, n3)) => { let s4 = s3.skip(n3 as int);
    match section(s4) { None => None, Some((section, n4)) => { let s5 = s4.skip(n4 as int);
    if starts(trim(s5), ';') { Some((RuleText { name, setting, alts, section }, n0 + n1 + n2 + n3 + n4 + ws_len(s5) + 1)) } else { None }
    } } } } } } } } } }
}
/// what follows the '$' of a default
pub open spec fn default_to(s: Seq<char>) -> Option<(Seq<char>, nat)> {
    match name_at(s) { None => None, Some((v, n0)) => { let s1 = s.skip(n0 as int);
    if v != "IGNORE"@ || !starts(trim(s1), ':') { None } else { let s2 = trim(s1).skip(1);
    match name_at(trim(s2)) { None => None, Some((name, n2)) => { let s3 = trim(s2).skip(n2 as int);
    if starts(trim(s3), ';') { Some((name, n0 + ws_len(s1) + 1 + ws_len(s2) + n2 + ws_len(s3) + 1)) } else { None }
    } } } } }
}
/// all of the text, whose first items are acc
pub open spec fn items(s: Seq<char>, acc: Seq<Item>) -> Option<Seq<Item>> decreases s.len() {
    let r = trim(s);
    if r.len() == 0 || ws_len(s) > s.len() { Some(acc) }
    else if starts(r, '$') {
        match default_to(r.skip(1)) { None => None, Some((name, n)) => if n > r.skip(1).len() { None } else { items(r.skip(1).skip(n as int), acc.push(Item::Default(name))) } }
    } else {
        match rule(r) { None => None, Some((t, n)) => if n == 0 || n > r.len() { None } else { items(r.skip(n as int), acc.push(Item::Rule(t))) } }
    }
}
pub proof fn lemma_items(s: Seq<char>, acc: Seq<Item>)
    ensures items(s, acc) matches Some(x) ==> x.len() >= acc.len() && x.take(acc.len() as int) == acc
    decreases s.len()
{
    let r = trim(s);
    lemma_ws(s);
    if r.len() == 0 { assert(acc.take(acc.len() as int) =~= acc); }
    else {
        let next = |i: Item, q: Seq<char>| items(q, acc.push(i));
        if starts(r, '$') {
            if let Some((name, n)) = default_to(r.skip(1)) { if n <= r.skip(1).len() {
                let a2 = acc.push(Item::Default(name));
                lemma_items(r.skip(1).skip(n as int), a2);
                if let Some(x) = items(r.skip(1).skip(n as int), a2) { assert(x.take(acc.len() as int) =~= x.take(a2.len() as int).take(acc.len() as int)); assert(a2.take(acc.len() as int) =~= acc); }
            } }
        } else if let Some((t, n)) = rule(r) { if 0 < n <= r.len() {
            let a2 = acc.push(Item::Rule(t));
            lemma_items(r.skip(n as int), a2);
            if let Some(x) = items(r.skip(n as int), a2) { assert(x.take(acc.len() as int) =~= x.take(a2.len() as int).take(acc.len() as int)); assert(a2.take(acc.len() as int) =~= acc); }
        } }
    }
}
pub proof fn lemma_ws(s: Seq<char>)
    ensures ws_len(s) <= s.len(), trim(s).len() == s.len() - ws_len(s), trim(s).len() > 0 ==> !is_ws(trim(s)[0]), ws_len(trim(s)) == 0
{
    lemma_prefix_len(s, |c: char| is_ws(c));
    lemma_prefix_len(trim(s), |c: char| is_ws(c));
}
pub proof fn lemma_name(s: Seq<char>)
    ensures name_at(s) matches Some((v, n)) ==> 0 < n <= s.len() && v.len() == n
{ if s.len() > 0 { lemma_prefix_len(s.skip(1), |c: char| is_name_char(c)); } }
pub proof fn lemma_lit(s: Seq<char>, e: bool)
    ensures lit_len(s, e) matches Some(n) ==> n < s.len() && s[n as int] == '"'
    decreases s.len()
{ if s.len() > 0 && !(s[0] == '"' && !e) { lemma_lit(s.drop_first(), s[0] == '\\' && !e); } }
pub proof fn lemma_element(s: Seq<char>)
    ensures element(s) matches Some((e, n)) ==> 0 < n <= s.len()
{ lemma_name(s); if s.len() > 0 { lemma_lit(s.skip(1), false); } }
pub proof fn lemma_alternative(s: Seq<char>, acc: AltText)
    ensures alternative(s, acc) matches Some((a, n)) ==> n <= s.len()
    decreases s.len()
{
    lemma_ws(s); lemma_element(trim(s));
    if let Some((Some(e), n)) = element(trim(s)) { lemma_alternative(trim(s).skip(n as int), acc.push(e)); }
}
pub proof fn lemma_more(s: Seq<char>, acc: Seq<AltText>)
    ensures more(s, acc) matches Some((a, n)) ==> n <= s.len()
    decreases s.len()
{
    lemma_ws(s);
    let r = trim(s);
    if starts(r, '|') {
        lemma_ws(r.skip(1));
        lemma_alternative(trim(r.skip(1)), Seq::empty());
        if let Some((a, n)) = alternative(trim(r.skip(1)), Seq::empty()) { lemma_more(trim(r.skip(1)).skip(n as int), acc.push(a)); }
    }
}
pub proof fn lemma_alternatives(s: Seq<char>)
    ensures alternatives(s) matches Some((a, n)) ==> n <= s.len()
{
    lemma_alternative(s, Seq::empty());
    if let Some((a, n)) = alternative(s, Seq::empty()) { lemma_more(s.skip(n as int), seq![a]); }
}
/// what is behind a setting
pub open spec fn set_rest(s: Seq<char>) -> Seq<char> {
    if !starts(s, '$') { s } else {
        let s1 = s.skip(1).skip(1); let s2 = trim(s1).skip(size(name_at(trim(s1))) as int); let s3 = trim(s2).skip(1); let v = what(name_at(trim(s1)));
        set_to_rest(v, trim(s3))
    }
}
pub open spec fn set_to_rest(v: Seq<char>, s: Seq<char>) -> Seq<char> {
    let q = if v != "IGNORE"@ { s } else if starts(s, '#') { s.skip(1) } else { s.skip(size(name_at(s)) as int) };
    trim(q).skip(1)
}
pub proof fn lemma_set_to(v: Seq<char>, s: Seq<char>)
    ensures set_to(v, s) matches Some((a, n)) ==> n <= s.len() && set_to_rest(v, s) == s.skip(n as int)
{
    let m: nat = if v != "IGNORE"@ { 0 } else if starts(s, '#') { 1 } else { size(name_at(s)) };
    lemma_name(s);
    if set_to(v, s) is Some {
        assert(s.skip(0) =~= s);
        let q = s.skip(m as int);
        lemma_ws(q);
        lemma_skips(trim(q).skip(1), trim(q), q, 1, ws_len(q));
        lemma_skips(trim(q).skip(1), q, s, 1 + ws_len(q), m);
    }
}
pub proof fn lemma_setting(s: Seq<char>)
    ensures setting(s) matches Some((a, n)) ==> n <= s.len() && set_rest(s) == s.skip(n as int)
{
    assert(s.skip(0) =~= s);
    if starts(s, '$') && starts(s.skip(1), '[') {
        let s1 = s.skip(1).skip(1);
        lemma_ws(s1); lemma_name(trim(s1));
        if let Some((v, n)) = name_at(trim(s1)) {
            let s2 = trim(s1).skip(n as int); lemma_ws(s2);
            if starts(trim(s2), ':') {
                let s3 = trim(s2).skip(1); lemma_ws(s3); lemma_set_to(v, trim(s3));
                if let Some((a, k)) = set_to(v, trim(s3)) {
                    let q = set_rest(s);
                    lemma_skips(q, trim(s3), s3, k, ws_len(s3));
                    lemma_skips(q, s3, trim(s2), k + ws_len(s3), 1);
                    lemma_skips(q, trim(s2), s2, k + ws_len(s3) + 1, ws_len(s2));
                    lemma_skips(q, s2, trim(s1), k + ws_len(s3) + 1 + ws_len(s2), n);
                    lemma_skips(q, trim(s1), s1, k + ws_len(s3) + 1 + ws_len(s2) + n, ws_len(s1));
                    lemma_skips(q, s1, s.skip(1), k + ws_len(s3) + 1 + ws_len(s2) + n + ws_len(s1), 1);
                    lemma_skips(q, s.skip(1), s, k + ws_len(s3) + 1 + ws_len(s2) + n + ws_len(s1) + 1, 1);
                }
            }
        }
    }
}
pub proof fn lemma_visible_len(s: Seq<char>, stop: Option<char>, esc: Option<char>, e: bool)
    ensures visible(s, stop, esc, e).len() <= s.len()
    decreases s.len()
{ if s.len() > 0 && !(stop == Some(s[0]) && !e) { lemma_visible_len(s.drop_first(), stop, esc, esc == Some(s[0])); } }
/// what is behind a section
pub open spec fn section_rest(s: Seq<char>) -> Seq<char> {
    if !starts(s, '{') { s } else { let r = trim(s.skip(1)); r.skip(visible(r, Some('}'), Some('\\'), false).len() as int).skip(1) }
}
pub proof fn lemma_section(s: Seq<char>)
    ensures section(s) matches Some((a, n)) ==> n <= s.len() && section_rest(s) == s.skip(n as int)
{
    assert(s.skip(0) =~= s);
    if starts(s, '{') && section(s) is Some {
        let (s1, r) = (s.skip(1), trim(s.skip(1)));
        lemma_ws(s1); lemma_visible_len(r, Some('}'), Some('\\'), false);
        let k = visible(r, Some('}'), Some('\\'), false).len();
        let q = section_rest(s);
        lemma_skips(q, r.skip(k as int), r, 1, k);
        lemma_skips(q, r, s1, 1 + k, ws_len(s1));
        lemma_skips(q, s1, s, 1 + k + ws_len(s1), 1);
    }
}
pub open spec fn arrow_rest(s: Seq<char>) -> Seq<char> { trim(trim(s).skip(1).skip(1)) }
pub proof fn lemma_arrow(s: Seq<char>)
    ensures arrow(s) matches Some(n) ==> n <= s.len() && arrow_rest(s) == s.skip(n as int),
        arrow(s) is Some <==> starts(trim(s), '-') && starts(trim(s).skip(1), '>')
{
    lemma_ws(s);
    if starts(trim(s), '-') && starts(trim(s).skip(1), '>') {
        let (r, r1) = (trim(s), trim(s).skip(1));
        let r2 = r1.skip(1);
        lemma_ws(r2);
        assert(r2 =~= r.skip(2));
        let q = trim(r2);
        lemma_skips(q, r2, r1, ws_len(r2), 1);
        lemma_skips(q, r1, r, ws_len(r2) + 1, 1);
        lemma_skips(q, r, s, ws_len(r2) + 2, ws_len(s));
    }
}
/// a rule, part by part; s1 to s5: what is behind the name, the arrow, the setting, the alternatives, the section
pub open spec fn rule_flat(s: Seq<char>, s1: Seq<char>, s2: Seq<char>, s3: Seq<char>, s4: Seq<char>, s5: Seq<char>) -> Option<RuleText> {
    if name_at(s) is Some && arrow(s1) is Some && setting(s2) is Some && alternatives(s3) is Some && section(s4) is Some && starts(trim(s5), ';') {
        Some(RuleText { name: what(name_at(s)), setting: what(setting(s2)), alts: what(alternatives(s3)), section: what(section(s4)) })
    } else { None }
}
pub proof fn lemma_rule(s: Seq<char>)
    ensures ({
        let s1 = s.skip(size(name_at(s)) as int); let s2 = s1.skip(arrow(s1)->0 as int); let s3 = s2.skip(size(setting(s2)) as int);
        let s4 = s3.skip(size(alternatives(s3)) as int); let s5 = s4.skip(size(section(s4)) as int);
        &&& rule(s) is Some <==> rule_flat(s, s1, s2, s3, s4, s5) is Some
        &&& rule(s) matches Some((t, n)) ==> 0 < n <= s.len() && rule_flat(s, s1, s2, s3, s4, s5) == Some(t) && trim(s5).skip(1) == s.skip(n as int)
    })
{
    hide(alternatives); hide(setting); hide(section); hide(arrow);
    let s1 = s.skip(size(name_at(s)) as int); let s2 = s1.skip(arrow(s1)->0 as int); let s3 = s2.skip(size(setting(s2)) as int);
    let s4 = s3.skip(size(alternatives(s3)) as int); let s5 = s4.skip(size(section(s4)) as int);
    lemma_name(s); lemma_arrow(s1); lemma_setting(s2); lemma_alternatives(s3); lemma_section(s4); lemma_ws(s5);
    if rule_flat(s, s1, s2, s3, s4, s5) is Some {
        let q = trim(s5).skip(1);
        let (n0, n1, n2, n3, n4) = (size(name_at(s)), arrow(s1)->0, size(setting(s2)), size(alternatives(s3)), size(section(s4)));
        lemma_skips(q, trim(s5), s5, 1, ws_len(s5));
        lemma_skips(q, s5, s4, 1 + ws_len(s5), n4);
        lemma_skips(q, s4, s3, 1 + ws_len(s5) + n4, n3);
        lemma_skips(q, s3, s2, 1 + ws_len(s5) + n4 + n3, n2);
        lemma_skips(q, s2, s1, 1 + ws_len(s5) + n4 + n3 + n2, n1);
        lemma_skips(q, s1, s, 1 + ws_len(s5) + n4 + n3 + n2 + n1, n0);
    }
}
pub proof fn lemma_default(s: Seq<char>)
    ensures default_to(s) matches Some((t, n)) ==> 0 < n <= s.len()
{
    lemma_name(s);
    if let Some((v, n0)) = name_at(s) { let s1 = s.skip(n0 as int); lemma_ws(s1); if starts(trim(s1), ':') { let s2 = trim(s1).skip(1); lemma_ws(s2); lemma_name(trim(s2));
    if let Some((name, n2)) = name_at(trim(s2)) { lemma_ws(trim(s2).skip(n2 as int)); } } }
}
pub proof fn lemma_default_step(s: Seq<char>)
    ensures ({
        let s1 = s.skip(size(name_at(s)) as int); let s2 = trim(s1).skip(1); let s3 = trim(s2).skip(size(name_at(trim(s2))) as int);
        default_to(s) == if name_at(s) is Some && what(name_at(s)) == "IGNORE"@ && starts(trim(s1), ':') && name_at(trim(s2)) is Some && starts(trim(s3), ';')
            { Some((what(name_at(trim(s2))), size(name_at(s)) + ws_len(s1) + 1 + ws_len(s2) + size(name_at(trim(s2))) + ws_len(s3) + 1)) } else { None }
            && (default_to(s) matches Some((t, n)) ==> n <= s.len() && s.skip(n as int) == trim(s3).skip(1))
    })
{
    lemma_default(s);
    let s1 = s.skip(size(name_at(s)) as int); let s2 = trim(s1).skip(1); let s3 = trim(s2).skip(size(name_at(trim(s2))) as int);
    if let Some((t, n)) = default_to(s) {
        lemma_name(s); lemma_ws(s1); lemma_ws(s2); lemma_name(trim(s2)); lemma_ws(s3);
        lemma_skips(trim(s3).skip(1), trim(s3), s3, 1, ws_len(s3));
        lemma_skips(trim(s3).skip(1), s3, trim(s2), 1 + ws_len(s3), size(name_at(trim(s2))));
        lemma_skips(trim(s3).skip(1), trim(s2), s2, 1 + ws_len(s3) + size(name_at(trim(s2))), ws_len(s2));
        lemma_skips(trim(s3).skip(1), s2, trim(s1), 1 + ws_len(s3) + size(name_at(trim(s2))) + ws_len(s2), 1);
        lemma_skips(trim(s3).skip(1), trim(s1), s1, 1 + ws_len(s3) + size(name_at(trim(s2))) + ws_len(s2) + 1, ws_len(s1));
        lemma_skips(trim(s3).skip(1), s1, s, 1 + ws_len(s3) + size(name_at(trim(s2))) + ws_len(s2) + 1 + ws_len(s1), size(name_at(s)));
    }
}
pub proof fn lemma_skips(c: Seq<char>, b: Seq<char>, a: Seq<char>, n: nat, m: nat)
    requires b == a.skip(m as int), m <= a.len(), n <= b.len(), c == b.skip(n as int)
    ensures c == a.skip((n + m) as int), n + m <= a.len()
{ assert(c =~= a.skip((n + m) as int)); }


// ---- the meaning
/// what the definitions of one name say together: all alternatives in order; setting and instructions are those of the first definition
pub struct Def<I> { pub alts: Seq<AltText>, pub ignore: Option<Seq<char>>, pub code: Seq<I> }
pub struct Meaning<I> { pub defs: Map<Seq<char>, Def<I>>, pub default: Option<Seq<char>> }
/// the section of the item is one the machine can read
pub open spec fn readable<V: VM>(vm: &V, i: Item) -> bool {
    match i { Item::Rule(r) => r.section is Some ==> vm.read(r.name, r.section->0) is Some, Item::Default(_) => true }
}
pub open spec fn code_of<V: VM>(vm: &V, r: RuleText) -> Seq<V::Tinstrution> {
    match r.section { None => Seq::empty(), Some(t) => vm.read(r.name, t)->0 }
}
pub open spec fn in_force(default: Option<Seq<char>>, s: Setting) -> Option<Seq<char>> {
    match s { Setting::Inherit => default, Setting::Off => None, Setting::Use(n) => Some(n) }
}
pub open spec fn add_item<V: VM>(vm: &V, m: Meaning<V::Tinstrution>, i: Item) -> Meaning<V::Tinstrution> {
    match i {
        Item::Default(n) => Meaning { default: Some(n), ..m },
        Item::Rule(r) => Meaning {
            defs: m.defs.insert(r.name, if m.defs.contains_key(r.name) { Def { alts: m.defs[r.name].alts + r.alts, ..m.defs[r.name] } }
                else { Def { alts: r.alts, ignore: in_force(m.default, r.setting), code: code_of(vm, r) } }),
            ..m
        },
    }
}
pub open spec fn meaning<V: VM>(vm: &V, l: Seq<Item>) -> Meaning<V::Tinstrution> decreases l.len() {
    if l.len() == 0 { Meaning { defs: Map::empty(), default: None } } else { add_item(vm, meaning(vm, l.drop_last()), l.last()) }
}

// ---- what the data show of it
impl<T> ParserData<T> where T: VM {
    pub open spec fn has_name(&self, ix: usize, name: Seq<char>, et: ElementType) -> bool {
        ix < self.count() && self.verbose(ix as int).name@ == name && self.element_types@[ix as int] == et
    }
    pub open spec fn shows_els(&self, v: Seq<usize>, a: AltText) -> bool {
        v.len() == a.len() && forall|j: int| #![trigger a[j]] #![trigger v[j]] 0 <= j < a.len() ==> self.has_name(v[j], a[j].0, a[j].1)
    }
    pub open spec fn shows_alt(&self, p: Production, a: AltText) -> bool { prod_ok(p) && self.shows_els(production_of(p), a) }
    pub open spec fn shows_alts(&self, v: Seq<std::rc::Rc<Production>>, a: Seq<AltText>) -> bool {
        &&& v.len() == a.len()
        &&& forall|p: int| #![trigger a[p]] #![trigger v[p]] 0 <= p < a.len() ==> self.shows_alt(*v[p], a[p])
    }
    pub open spec fn shows_symbol(&self, i: Option<usize>, n: Option<Seq<char>>) -> bool {
        match i { None => n is None, Some(ix) => n is Some && self.has_name(ix, n->0, ElementType::NonTerminal) }
    }
    pub open spec fn shows_rule(&self, r: NonTerminalRules<T>, d: Def<T::Tinstrution>) -> bool {
        self.shows_alts(r.possible_productions@, d.alts) && self.shows_symbol(r.ignore, d.ignore) && r.instruction@ == d.code
    }
    pub open spec fn shows_key(&self, k: usize, m: Meaning<T::Tinstrution>) -> bool {
        let name = self.verbose(k as int).name@;
        k < self.count() && self.element_types@[k as int] == ElementType::NonTerminal && m.defs.contains_key(name) && self.shows_rule(self.parse_rules.rules@[k], m.defs[name])
    }
    pub open spec fn shows_def(&self, name: Seq<char>) -> bool { exists|k: usize| #[trigger] self.parse_rules.rules@.contains_key(k) && self.verbose(k as int).name@ == name }
    /// the rules are those of the meaning, each under the element with its name, before the ignored symbols are woven in
    pub open spec fn shows(&self, m: Meaning<T::Tinstrution>) -> bool {
        &&& self.wf()
        &&& self.shows_symbol(self.parse_rules.ignore, m.default)
        &&& forall|k: usize| #[trigger] self.parse_rules.rules@.contains_key(k) ==> self.shows_key(k, m)
        &&& forall|name: Seq<char>| #[trigger] m.defs.contains_key(name) ==> self.shows_def(name)
    }
}
pub proof fn lemma_more_els<T: VM>(o: &ParserData<T>, d: &ParserData<T>, v: Seq<usize>, a: AltText)
    requires d.extends_elements(o), o.shows_els(v, a)
    ensures d.shows_els(v, a)
{
    assert forall|j: int| #![trigger a[j]] #![trigger v[j]] 0 <= j < a.len() implies d.has_name(v[j], a[j].0, a[j].1) by { assert(o.has_name(v[j], a[j].0, a[j].1)); assert(d.verbose(v[j] as int) == o.verbose(v[j] as int)); }
}
pub proof fn lemma_more_alts<T: VM>(o: &ParserData<T>, d: &ParserData<T>, v: Seq<std::rc::Rc<Production>>, a: Seq<AltText>)
    requires d.extends_elements(o), o.shows_alts(v, a)
    ensures d.shows_alts(v, a)
{
    assert forall|p: int| #![trigger a[p]] #![trigger v[p]] 0 <= p < a.len() implies d.shows_alt(*v[p], a[p]) by { assert(o.shows_alt(*v[p], a[p])); lemma_more_els(o, d, production_of(*v[p]), a[p]); }
}
pub proof fn lemma_more_symbol<T: VM>(o: &ParserData<T>, d: &ParserData<T>, i: Option<usize>, n: Option<Seq<char>>)
    requires d.extends_elements(o), o.shows_symbol(i, n)
    ensures d.shows_symbol(i, n)
{ if i is Some { assert(d.verbose(i->0 as int) == o.verbose(i->0 as int)); } }
pub proof fn lemma_no_els<T: VM>(d: &ParserData<T>)
    ensures d.extends_elements(d), d.shows_els(Seq::empty(), Seq::empty())
{}
pub proof fn lemma_els_len<T: VM>(d: &ParserData<T>, v: Seq<usize>, a: AltText)
    requires d.shows_els(v, a)
    ensures v.len() == a.len()
{}
pub proof fn lemma_push_el<T: VM>(o: &ParserData<T>, d: &ParserData<T>, v: Seq<usize>, a: AltText, ix: usize, e: (Seq<char>, ElementType))
    requires d.extends_elements(o), o.shows_els(v, a), d.has_name(ix, e.0, e.1)
    ensures d.shows_els(v.push(ix), a.push(e))
{ lemma_more_els(o, d, v, a); }
pub proof fn lemma_extends<T: VM>(a: &ParserData<T>, b: &ParserData<T>, c: &ParserData<T>)
    requires b.extends_elements(a), c.extends_elements(b)
    ensures c.extends_elements(a)
{}
pub proof fn lemma_same<T: VM>(o: &ParserData<T>, d: &ParserData<T>)
    requires d.same_elements(o), o.wf()
    ensures d.wf(), d.extends_elements(o)
{
    assert forall|ix: int| #[trigger] d.verbose(ix) == o.verbose(ix) by {}
}
pub proof fn lemma_more_name<T: VM>(o: &ParserData<T>, d: &ParserData<T>, ix: usize, name: Seq<char>, et: ElementType)
    requires d.extends_elements(o), o.has_name(ix, name, et)
    ensures d.has_name(ix, name, et)
{ assert(d.verbose(ix as int) == o.verbose(ix as int)); }
pub proof fn lemma_more_names<T: VM>(o: &ParserData<T>, d: &ParserData<T>, ix: Option<usize>)
    requires d.extends_elements(o)
    ensures forall|name: Seq<char>, et: ElementType| ix is Some && o.has_name(ix->0, name, et) ==> #[trigger] d.has_name(ix->0, name, et)
{
    assert forall|name: Seq<char>, et: ElementType| ix is Some && o.has_name(ix->0, name, et) implies #[trigger] d.has_name(ix->0, name, et) by { lemma_more_name(o, d, ix->0, name, et); }
}
/// one step of reading an alternative
pub proof fn lemma_alt_step(s: Seq<char>, acc: AltText)
    ensures ({
        let r = trim(s); let w = ws_len(s); let x = alternative(s, acc);
        match element(r) {
            None => x == (if acc.len() > 0 { Some((acc, w + eaten(r))) } else { None }),
            Some((None, n)) => x == (if acc.len() == 0 { Some((acc, w + n)) } else { None }),
            Some((Some(e), n)) => x == shift(alternative(r.skip(n as int), acc.push(e)), w + n),
        }
    })
{ lemma_ws(s); lemma_element(trim(s)); }
pub proof fn lemma_more_step(s: Seq<char>, acc: Seq<AltText>)
    ensures ({
        let r = trim(s); let w = ws_len(s); let x = more(s, acc); let r1 = trim(r.skip(1));
        if starts(r, '|') {
            match alternative(r1, Seq::empty()) {
                None => x is None,
                Some((a, n)) => x == shift(more(r1.skip(n as int), acc.push(a)), w + 1 + ws_len(r.skip(1)) + n),
            }
        } else { x == Some((acc, w)) }
    })
{ lemma_ws(s); lemma_ws(trim(s).skip(1)); lemma_alternative(trim(trim(s).skip(1)), Seq::empty()); }
pub proof fn lemma_one_alt<T: VM>(d: &ParserData<T>, v: Seq<std::rc::Rc<Production>>, a: Seq<AltText>)
    requires v.len() == 1, a.len() == 1, d.shows_alt(*v[0], a[0])
    ensures d.shows_alts(v, a)
{}
pub proof fn lemma_push_alt<T: VM>(o: &ParserData<T>, d: &ParserData<T>, v: Seq<std::rc::Rc<Production>>, a: Seq<AltText>, p: std::rc::Rc<Production>, e: AltText)
    requires d.extends_elements(o), o.shows_alts(v, a), d.shows_alt(*p, e)
    ensures d.shows_alts(v.push(p), a.push(e))
{ lemma_more_alts(o, d, v, a); }
pub proof fn lemma_shift<A>(r: Option<(A, nat)>, m: nat, n: nat)
    ensures shift(shift(r, m), n) == shift(r, m + n), shift(r, 0) == r
{}
/// x between every two neighbours of s
pub open spec fn between(s: Seq<usize>, x: usize) -> Seq<usize> {
    Seq::new(if s.len() == 0 { 0 } else { (2 * s.len() - 1) as nat }, |i: int| if i % 2 == 0 { s[i / 2] } else { x })
}
/// alternative p of a mentions b
pub open spec fn mentions<T: VM>(r: &ParseRules<T>, a: usize, b: usize) -> bool {
    r.rules@.contains_key(a) && exists|p: int| 0 <= p < r.rules@[a].possible_productions@.len() && production_of(*#[trigger] r.rules@[a].possible_productions@[p]).contains(b)
}
pub open spec fn mention_path<T: VM>(r: &ParseRules<T>, path: Seq<usize>, a: usize, b: usize) -> bool {
    &&& path.len() > 0 && path[0] == a && path.last() == b
    &&& forall|i: int| 0 < i < path.len() ==> mentions(r, #[trigger] path[i - 1], path[i])
}
/// the rules of a, followed down, come to b
pub open spec fn made_of<T: VM>(r: &ParseRules<T>, a: usize, b: usize) -> bool { exists|path: Seq<usize>| mention_path(r, path, a, b) }
pub open spec fn weaves<T: VM>(w: &ParseRules<T>, k: usize) -> bool { w.rules@[k].ignore is Some && !made_of(w, w.rules@[k].ignore->0, k) }
/// rule k with the ignored symbol where it belongs
pub open spec fn woven_rule<T: VM>(w: &ParseRules<T>, k: usize, r: NonTerminalRules<T>) -> bool {
    let o = w.rules@[k];
    let (a, b) = (o.possible_productions@, r.possible_productions@);
    &&& r.instruction == o.instruction && b.len() == a.len()
    &&& if weaves(w, k) { r.ignore == o.ignore && woven_alts(a, o.ignore->0, b) }
        else { r.ignore is None && a == b }
}
/// the rules w with the ignored symbols woven in
pub open spec fn woven<T: VM>(w: &ParseRules<T>, r: &ParseRules<T>) -> bool {
    &&& r.ignore == w.ignore && r.rules@.dom() == w.rules@.dom()
    &&& forall|k: usize| #[trigger] w.rules@.contains_key(k) ==> woven_rule(w, k, r.rules@[k])
}
/// some ignored symbol leads to one without a rule
pub open spec fn dangling<T: VM>(w: &ParserData<T>) -> bool {
    exists|k: usize, b: usize| #[trigger] loose_end(w, k, b)
}
pub open spec fn loose_end<T: VM>(w: &ParserData<T>, k: usize, b: usize) -> bool {
    &&& w.parse_rules.rules@.contains_key(k) && w.parse_rules.rules@[k].ignore is Some && made_of(&w.parse_rules, w.parse_rules.rules@[k].ignore->0, b)
    &&& !w.parse_rules.rules@.contains_key(b) && w.element_types@[b as int] == ElementType::NonTerminal
}

// ---- what a rule is made of
pub proof fn lemma_made_self<T: VM>(r: &ParseRules<T>, a: usize)
    ensures made_of(r, a, a)
{ assert(mention_path(r, seq![a], a, a)); }
pub proof fn lemma_made_step<T: VM>(r: &ParseRules<T>, a: usize, e: usize, b: usize)
    requires mentions(r, a, e), made_of(r, e, b)
    ensures made_of(r, a, b)
{
    let path = choose|path: Seq<usize>| mention_path(r, path, e, b);
    let q = seq![a] + path;
    assert(q.last() == b);
    assert forall|i: int| 0 < i < q.len() implies mentions(r, #[trigger] q[i - 1], q[i]) by { if i > 1 { assert(path[i - 2] == q[i - 1]); assert(path[i - 1] == q[i]); } }
    assert(mention_path(r, q, a, b));
}
/// everything v mentions is another element than b and a terminal or in the set
pub open spec fn settled<T: VM>(types: Seq<ElementType>, r: &ParseRules<T>, b: usize, set: Set<usize>, v: usize) -> bool {
    &&& r.rules@.contains_key(v) && v != b
    &&& forall|e: usize| #[trigger] mentions(r, v, e) ==> e != b && (types[e as int] == ElementType::Terminal || set.contains(e))
}
/// a rule all of whose elements there are
pub open spec fn fit_rule<T: VM>(types: Seq<ElementType>, k: usize, n: NonTerminalRules<T>) -> bool {
    &&& k < types.len() && types[k as int] == ElementType::NonTerminal && (n.ignore is Some ==> n.ignore->0 < types.len())
    &&& forall|p: int| 0 <= p < n.possible_productions@.len() ==> fit_alt(types, *#[trigger] n.possible_productions@[p])
}
pub open spec fn fit_alt(types: Seq<ElementType>, p: Production) -> bool {
    prod_ok(p) && forall|j: int| 0 <= j < production_of(p).len() ==> #[trigger] production_of(p)[j] < types.len()
}
pub open spec fn fit_rules<T: VM>(types: Seq<ElementType>, r: &ParseRules<T>) -> bool {
    forall|k: usize| #[trigger] r.rules@.contains_key(k) ==> fit_rule(types, k, r.rules@[k])
}
pub proof fn lemma_not_made<T: VM>(types: Seq<ElementType>, r: &ParseRules<T>, a: usize, b: usize, set: Set<usize>)
    requires
        fit_rules(types, r), b < types.len(), types[b as int] == ElementType::NonTerminal,
        a < types.len() && types[a as int] == ElementType::Terminal || set.contains(a),
        forall|v: usize| #[trigger] set.contains(v) ==> settled(types, r, b, set, v),
    ensures !made_of(r, a, b)
{
    assert forall|path: Seq<usize>| #[trigger] mention_path(r, path, a, b) implies false by { lemma_not_path(types, r, a, b, set, path, path.len() - 1); }
}
proof fn lemma_not_path<T: VM>(types: Seq<ElementType>, r: &ParseRules<T>, a: usize, b: usize, set: Set<usize>, path: Seq<usize>, i: int)
    requires
        fit_rules(types, r), b < types.len(), types[b as int] == ElementType::NonTerminal,
        a < types.len() && types[a as int] == ElementType::Terminal || set.contains(a),
        forall|v: usize| #[trigger] set.contains(v) ==> settled(types, r, b, set, v),
        mention_path(r, path, a, b), 0 <= i < path.len(),
    ensures path[i] != b, types[path[i] as int] == ElementType::Terminal || set.contains(path[i])
    decreases i
{
    if i > 0 {
        lemma_not_path(types, r, a, b, set, path, i - 1);
        assert(mentions(r, path[i - 1], path[i]));
        assert(fit_rule(types, path[i - 1], r.rules@[path[i - 1]]));
        assert(settled(types, r, b, set, path[i - 1]));
    }
}
/// a leads to a symbol without a rule
pub open spec fn leads_nowhere<T: VM>(types: Seq<ElementType>, r: &ParseRules<T>, a: usize) -> bool {
    exists|b: usize| #[trigger] made_of(r, a, b) && !r.rules@.contains_key(b) && types[b as int] == ElementType::NonTerminal
}
pub proof fn lemma_nowhere_step<T: VM>(types: Seq<ElementType>, r: &ParseRules<T>, a: usize, e: usize)
    requires mentions(r, a, e), leads_nowhere(types, r, e)
    ensures leads_nowhere(types, r, a)
{
    let b = choose|b: usize| #[trigger] made_of(r, e, b) && !r.rules@.contains_key(b) && types[b as int] == ElementType::NonTerminal;
    lemma_made_step(r, a, e, b);
}
pub open spec fn past(types: Seq<ElementType>, b: usize, set: Set<usize>, e: usize) -> bool { e != b && (types[e as int] == ElementType::Terminal || set.contains(e)) }
/// all that came into the set is settled
pub open spec fn all_settled<T: VM>(types: Seq<ElementType>, r: &ParseRules<T>, b: usize, before: Set<usize>, set: Set<usize>) -> bool {
    forall|v: usize| #[trigger] set.contains(v) && !before.contains(v) ==> settled(types, r, b, set, v)
}
/// the search from a came to its end without finding b
pub open spec fn reached<T: VM>(types: Seq<ElementType>, r: &ParseRules<T>, b: usize, before: Set<usize>, set: Set<usize>, a: usize) -> bool {
    &&& all_settled(types, r, b, before, set)
    &&& types[a as int] == ElementType::Terminal || a != b && set.contains(a)
}
pub proof fn lemma_reached<T: VM>(types: Seq<ElementType>, r: &ParseRules<T>, b: usize, v1: Set<usize>, v2: Set<usize>, v3: Set<usize>, a: usize)
    requires all_settled(types, r, b, v1, v2), reached(types, r, b, v2, v3, a), v2.subset_of(v3)
    ensures all_settled(types, r, b, v1, v3)
{
    assert forall|v: usize| #[trigger] v3.contains(v) && !v1.contains(v) implies settled(types, r, b, v3, v) by {
        if v2.contains(v) { assert(settled(types, r, b, v2, v)); }
    }
}
/// right side of alternative p
pub open spec fn right_of(v: Seq<std::rc::Rc<Production>>, p: int) -> Seq<usize> { production_of(*v[p]) }
pub open spec fn woven_alts(a: Seq<std::rc::Rc<Production>>, x: usize, b: Seq<std::rc::Rc<Production>>) -> bool {
    b.len() == a.len() && forall|p: int| 0 <= p < a.len() ==> prod_ok(*#[trigger] b[p]) && production_of(*b[p]) == between(production_of(*a[p]), x)
}
/// f is rule n of k joined to what there is under k
pub open spec fn joined<T: VM>(r: &ParseRules<T>, k: usize, n: NonTerminalRules<T>, f: NonTerminalRules<T>) -> bool {
    if r.rules@.contains_key(k) {
        let o = r.rules@[k];
        f.possible_productions@ == o.possible_productions@ + n.possible_productions@ && f.ignore == o.ignore && f.instruction == o.instruction
    } else { f == n }
}

// ---- from the text to the data
pub proof fn lemma_items_step(s: Seq<char>, acc: Seq<Item>)
    ensures ({
        let r = trim(s); let x = items(s, acc); let q = r.skip(1);
        if r.len() == 0 { x == Some(acc) }
        else if starts(r, '$') { match default_to(q) { None => x is None, Some((name, n)) => x == items(q.skip(n as int), acc.push(Item::Default(name))) } }
        else { match rule(r) { None => x is None, Some((t, n)) => x == items(r.skip(n as int), acc.push(Item::Rule(t))) } }
    })
{
    hide(rule); hide(default_to);
    lemma_ws(s); lemma_rule(trim(s)); lemma_default(trim(s).skip(1));
}
pub open spec fn all_readable<V: VM>(vm: &V, l: Seq<Item>) -> bool { forall|i: int| 0 <= i < l.len() ==> readable(vm, #[trigger] l[i]) }
pub proof fn lemma_meaning_push<V: VM>(vm: &V, l: Seq<Item>, i: Item)
    ensures meaning(vm, l.push(i)) == add_item(vm, meaning(vm, l), i), all_readable(vm, l.push(i)) <==> all_readable(vm, l) && readable(vm, i)
{
    assert(l.push(i).drop_last() =~= l);
    if all_readable(vm, l.push(i)) {
        assert forall|j: int| 0 <= j < l.len() implies readable(vm, #[trigger] l[j]) by { assert(l.push(i)[j] == l[j]); }
        assert(l.push(i)[l.len() as int] == i);
    }
}
/// an item that cannot be read is still among the items when more follow
pub proof fn lemma_unreadable<V: VM>(vm: &V, s: Seq<char>, acc: Seq<Item>)
    requires !all_readable(vm, acc)
    ensures items(s, acc) matches Some(x) ==> !all_readable(vm, x)
{
    lemma_items(s, acc);
    if let Some(x) = items(s, acc) {
        let i = choose|i: int| 0 <= i < acc.len() && !readable(vm, #[trigger] acc[i]);
        assert(x.take(acc.len() as int)[i] == x[i]);
    }
}
pub proof fn lemma_one_number<T: VM>(d: &ParserData<T>, a: usize, b: usize, name: Seq<char>, et: ElementType)
    requires d.wf(), d.has_name(a, name, et), d.has_name(b, name, et)
    ensures a == b
{
    let (x, y) = (d.verbose(a as int), d.verbose(b as int));
    axiom_string_ext(x.name, y.name);
    assert(x == y);
}
pub proof fn lemma_join_alts<T: VM>(d: &ParserData<T>, v: Seq<std::rc::Rc<Production>>, a: Seq<AltText>, w: Seq<std::rc::Rc<Production>>, b: Seq<AltText>)
    requires d.shows_alts(v, a), d.shows_alts(w, b)
    ensures d.shows_alts(v + w, a + b)
{}
/// a key of the data and the name of its element
proof fn lemma_key<T: VM>(d: &ParserData<T>, m: Meaning<T::Tinstrution>, k: usize)
    requires d.shows(m), d.parse_rules.rules@.contains_key(k)
    ensures d.has_name(k, d.verbose(k as int).name@, ElementType::NonTerminal), d.shows_key(k, m)
{}
proof fn lemma_def<T: VM>(d: &ParserData<T>, m: Meaning<T::Tinstrution>, name: Seq<char>) -> (k: usize)
    requires d.shows(m), m.defs.contains_key(name)
    ensures d.parse_rules.rules@.contains_key(k), d.has_name(k, name, ElementType::NonTerminal)
{
    assert(d.shows_def(name));
    let k = choose|k: usize| #[trigger] d.parse_rules.rules@.contains_key(k) && d.verbose(k as int).name@ == name;
    lemma_key(d, m, k);
    k
}
pub proof fn lemma_more_rule<T: VM>(o: &ParserData<T>, d: &ParserData<T>, r: NonTerminalRules<T>, f: Def<T::Tinstrution>)
    requires d.extends_elements(o), o.shows_rule(r, f)
    ensures d.shows_rule(r, f)
{ lemma_more_alts(o, d, r.possible_productions@, f.alts); lemma_more_symbol(o, d, r.ignore, f.ignore); }
pub proof fn lemma_add_default<T: VM>(vm: &T, o: &ParserData<T>, d: &ParserData<T>, m: Meaning<T::Tinstrution>, name: Seq<char>)
    requires o.shows(m), d.wf(), d.extends_elements(o), d.parse_rules.rules == o.parse_rules.rules,
        d.parse_rules.ignore is Some, d.has_name(d.parse_rules.ignore->0, name, ElementType::NonTerminal)
    ensures d.shows(add_item(vm, m, Item::Default(name)))
{
    let n = add_item(vm, m, Item::Default(name));
    assert forall|k: usize| #[trigger] d.parse_rules.rules@.contains_key(k) implies d.shows_key(k, n) by {
        lemma_key(o, m, k); lemma_more_name(o, d, k, o.verbose(k as int).name@, ElementType::NonTerminal); lemma_more_rule(o, d, o.parse_rules.rules@[k], m.defs[o.verbose(k as int).name@]);
    }
    assert forall|q: Seq<char>| #[trigger] n.defs.contains_key(q) implies d.shows_def(q) by {
        let k = lemma_def(o, m, q); lemma_more_name(o, d, k, q, ElementType::NonTerminal); assert(d.parse_rules.rules@.contains_key(k));
    }
}
/// rule nt under key is what the text r says, read after o
pub open spec fn nt_shows<T: VM>(vm: &T, o: &ParserData<T>, d: &ParserData<T>, key: usize, nt: NonTerminalRules<T>, r: RuleText) -> bool {
    &&& d.has_name(key, r.name, ElementType::NonTerminal) && d.shows_alts(nt.possible_productions@, r.alts) && nt.instruction@ == code_of(vm, r)
    &&& match r.setting { Setting::Inherit => nt.ignore == o.parse_rules.ignore, Setting::Off => nt.ignore is None, Setting::Use(n) => nt.ignore is Some && d.has_name(nt.ignore->0, n, ElementType::NonTerminal) }
}
pub proof fn lemma_add_rule<T: VM>(vm: &T, o: &ParserData<T>, d1: &ParserData<T>, d: &ParserData<T>, m: Meaning<T::Tinstrution>, key: usize, nt: NonTerminalRules<T>, r: RuleText)
    requires
        o.shows(m), d1.wf(), d1.extends_elements(o), d1.parse_rules == o.parse_rules, nt_shows(vm, o, d1, key, nt, r),
        d.same_elements(d1), d.parse_rules.ignore == d1.parse_rules.ignore, d.parse_rules.rules@ == d1.parse_rules.rules@.insert(key, d.parse_rules.rules@[key]),
        joined(&d1.parse_rules, key, nt, d.parse_rules.rules@[key]),
    ensures d.shows(add_item(vm, m, Item::Rule(r)))
{
    hide(ParserData::extends_elements); hide(ParserData::wf); hide(ParserData::shows_alts);
    let n = add_item(vm, m, Item::Rule(r));
    let new = d.parse_rules.rules@[key];
    lemma_same(d1, d); lemma_extends(o, d1, d);
    lemma_more_symbol(o, d, o.parse_rules.ignore, m.default);
    lemma_more_name(d1, d, key, r.name, ElementType::NonTerminal);
    lemma_more_names(d1, d, nt.ignore);
    lemma_more_alts(d1, d, nt.possible_productions@, r.alts);
    assert(d.shows_symbol(nt.ignore, in_force(m.default, r.setting)));
    if m.defs.contains_key(r.name) {
        let k = lemma_def(o, m, r.name); lemma_more_name(o, d, k, r.name, ElementType::NonTerminal); lemma_one_number(d, k, key, r.name, ElementType::NonTerminal);
    }
    assert forall|k: usize| #[trigger] d.parse_rules.rules@.contains_key(k) implies d.shows_key(k, n) by {
        if o.parse_rules.rules@.contains_key(k) {
            let name = o.verbose(k as int).name@;
            lemma_key(o, m, k); lemma_more_name(o, d, k, name, ElementType::NonTerminal); lemma_more_rule(o, d, o.parse_rules.rules@[k], m.defs[name]);
            if k == key {
                lemma_join_alts(d, o.parse_rules.rules@[k].possible_productions@, m.defs[name].alts, nt.possible_productions@, r.alts);
            } else if name == r.name { lemma_one_number(d, k, key, name, ElementType::NonTerminal); }
        }
    }
    assert forall|q: Seq<char>| #[trigger] n.defs.contains_key(q) implies d.shows_def(q) by {
        if q == r.name { assert(d.parse_rules.rules@.contains_key(key)); }
        else { let k = lemma_def(o, m, q); lemma_more_name(o, d, k, q, ElementType::NonTerminal); assert(d.parse_rules.rules@.contains_key(k)); }
    }
}
pub proof fn lemma_shows_fit<T: VM>(d: &ParserData<T>, m: Meaning<T::Tinstrution>)
    requires d.shows(m)
    ensures fit_rules(d.element_types@, &d.parse_rules)
{
    assert forall|k: usize| #[trigger] d.parse_rules.rules@.contains_key(k) implies fit_rule(d.element_types@, k, d.parse_rules.rules@[k]) by {
        lemma_key(d, m, k);
        let n = d.parse_rules.rules@[k]; let a = m.defs[d.verbose(k as int).name@].alts;
        assert forall|p: int| 0 <= p < n.possible_productions@.len() implies fit_alt(d.element_types@, *#[trigger] n.possible_productions@[p]) by {
            assert(d.shows_alt(*n.possible_productions@[p], a[p]));
            let v = production_of(*n.possible_productions@[p]);
            assert forall|j: int| 0 <= j < v.len() implies #[trigger] v[j] < d.element_types@.len() by { assert(d.has_name(v[j], a[p][j].0, a[p][j].1)); }
        }
    }
}
pub proof fn lemma_woven_fit<T: VM>(types: Seq<ElementType>, w: &ParseRules<T>, r: &ParseRules<T>)
    requires fit_rules(types, w), woven(w, r)
    ensures fit_rules(types, r)
{
    hide(made_of);
    assert forall|k: usize| #[trigger] r.rules@.contains_key(k) implies fit_rule(types, k, r.rules@[k]) by {
        assert(w.rules@.contains_key(k)); assert(fit_rule(types, k, w.rules@[k])); assert(woven_rule(w, k, r.rules@[k]));
        let (a, b) = (w.rules@[k].possible_productions@, r.rules@[k].possible_productions@);
        assert forall|p: int| 0 <= p < b.len() implies fit_alt(types, *#[trigger] b[p]) by {
            assert(fit_alt(types, *a[p]));
            let (v, u) = (production_of(*a[p]), production_of(*b[p]));
            if weaves(w, k) {
                assert(u == between(v, w.rules@[k].ignore->0));
                assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] < types.len() by { assert(v[j / 2] < types.len()); }
            }
        }
    }
}
pub proof fn lemma_fit_gram<T: VM>(d: &ParserData<T>)
    requires d.wf(), fit_rules(d.element_types@, &d.parse_rules)
    ensures d.gram_ok()
{
    let g = d.gram();
    assert forall|k: usize, p: int| d.parse_rules.rules@.contains_key(k) && 0 <= p < d.prods(k).len() implies prod_ok(#[trigger] d.prods(k)[p]) by {
        assert(fit_rule(d.element_types@, k, d.parse_rules.rules@[k])); assert(fit_alt(d.element_types@, *d.parse_rules.rules@[k].possible_productions@[p]));
    }
    assert forall|k: usize| #[trigger] g.rules.contains_key(k) implies k < g.kinds.len() by { assert(fit_rule(d.element_types@, k, d.parse_rules.rules@[k])); }
    assert forall|k: usize, p: int| g.rules.contains_key(k) && 0 <= p < g.alts(k).len() implies g.known(#[trigger] g.alts(k)[p]) by {
        assert(fit_rule(d.element_types@, k, d.parse_rules.rules@[k])); assert(fit_alt(d.element_types@, *d.parse_rules.rules@[k].possible_productions@[p]));
    }
}
/// d are the rules of the meaning with the ignored symbols woven in
pub open spec fn reads<T: VM>(d: &ParserData<T>, m: Meaning<T::Tinstrution>) -> bool {
    exists|w: ParserData<T>| #[trigger] w.shows(m) && d.same_elements(&w) && woven(&w.parse_rules, &d.parse_rules)
}
/// an ignored symbol of the meaning leads to a name without a rule
pub open spec fn lost<T: VM>(vm: &T, m: Meaning<T::Tinstrution>) -> bool {
    exists|w: ParserData<T>| #[trigger] w.shows(m) && dangling(&w)
}
/// the text s is one the reader refuses
pub open spec fn refused<T: VM>(vm: &T, s: Seq<char>) -> bool {
    match items(s, Seq::empty()) { None => true, Some(l) => !all_readable(vm, l) || lost::<T>(vm, meaning(vm, l)) }
}
/// d are the rules of the text s
pub open spec fn told<T: VM>(vm: &T, s: Seq<char>, d: &ParserData<T>) -> bool {
    items(s, Seq::empty()) matches Some(l) && all_readable(vm, l) && reads(d, meaning(vm, l)) && d.wf() && d.gram_ok()
}
pub proof fn lemma_nothing<T: VM>(vm: &T, d: &ParserData<T>)
    requires d.wf(), d.parse_rules.rules@ == Map::<usize, NonTerminalRules<T>>::empty(), d.parse_rules.ignore is None
    ensures d.shows(meaning(vm, Seq::empty())), all_readable(vm, Seq::empty())
{}
pub proof fn lemma_bad_rule<T: VM>(vm: &T, s: Seq<char>, q: Seq<char>, acc: Seq<Item>)
    requires
        all_readable(vm, acc),
        match rule(q) { None => items(s, Seq::empty()) is None, Some((t, n)) => items(s, Seq::empty()) == items(q.skip(n as int), acc.push(Item::Rule(t))) },
    ensures rule(q) is None || !readable(vm, Item::Rule(what(rule(q)))) ==> refused(vm, s)
{
    if let Some((t, n)) = rule(q) { if !readable(vm, Item::Rule(t)) {
        lemma_meaning_push(vm, acc, Item::Rule(t)); lemma_unreadable(vm, q.skip(n as int), acc.push(Item::Rule(t)));
    } }
}
}
