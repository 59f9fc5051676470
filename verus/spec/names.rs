/// Sketchware's rule: no underscores, the first letter and every letter after an underscore in upper case
pub open spec fn camel(s: Seq<char>, cap: bool) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else if s[0] == '_' { camel(s.skip(1), true) } else { seq![if cap { upper(s[0]) } else { s[0] }] + camel(s.skip(1), false) }
}
pub open spec fn java_name(s: Seq<char>) -> Seq<char> { camel(s, true) + "Activity"@ }
