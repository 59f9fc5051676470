pub use crate::parser::project::Project as PProject;
pub open spec fn project_read(s: Seq<char>) -> Option<PProject> { jread::<PProject>(s) }
pub open spec fn project_text(x: PProject) -> Option<Seq<char>> { match x.enc() { Some(j) => Some(jtext(j)), None => None } }
/// C04: every project whose creation time lies in the years 0 to 9999 is written, and reads back the same
pub proof fn c04_back(x: PProject)
    ensures year4(wrap_i64(x.date_created as int) as int) ==> project_text(x) is Some, project_text(x) matches Some(t) ==> project_read(t) == Some(x)
{ reveal(crate::parser::project::enc_Project); reveal(crate::parser::project::good_Project); if x.enc() is Some { x.rt(); ax_json(x); } }
/// the creation time is fourteen digits, year first, in UTC
pub proof fn c04_date(t: u64)
    ensures enc__date_to_timestamp(t) matches Some(j) ==> (j matches J::Str(s) && s.len() == 14 && digits(s) && civil_ok(text_civil(s)) && secs_of(text_civil(s)) == wrap_i64(t as int))
{ let n = wrap_i64(t as int) as int; if year4(n) { ax_civil(n); text_back(civil(n)); } }
