pub use crate::parser::{RawSketchwareProject, SketchwareProject as ParsedProject};
/// the text an encrypted data file holds, if it is one
pub open spec fn opened(b: Seq<u8>) -> Option<Seq<char>> { match sw_dec(b) { Some(d) => utf8_text(d), None => None } }
pub open spec fn files_ok(f: Option<Vec<ResourceFileWrapper>>) -> bool { f matches Some(l) ==> sorted(l@, l@.len()) is Some }
pub open spec fn readable(r: RawSketchwareProject) -> bool {
    project_read(r.project@) is Some && file_read(r.file@) is Some && library_read(r.library@) is Some && resource_read(r.resource@) is Some && view_read(r.view@) is Some && logic_read(r.logic@) is Some && files_ok(r.resource_files)
}
pub open spec fn read_as(r: RawSketchwareProject, p: ParsedProject) -> bool {
    project_read(r.project@) == Some(p.project) && file_read(r.file@) == Some(p.file) && library_read(r.library@) == Some(p.library) && resource_read(r.resource@) == Some(p.resource) && view_read(r.view@) == Some(p.view) && logic_read(r.logic@) == Some(p.logic)
    && (match (r.resource_files, p.resource_files) { (None, None) => true, (Some(l), Some(f)) => sorted(l@, l@.len()) == Some(as_sorted(f)), _ => false })
}
pub open spec fn writable(p: ParsedProject) -> bool { project_text(p.project) is Some && file_text(p.file) is Some && library_text(p.library) is Some && resource_text(p.resource) is Some && view_text(p.view) is Some && logic_text(p.logic) is Some }
pub open spec fn written_as(p: ParsedProject, r: RawSketchwareProject) -> bool {
    project_text(p.project) == Some(r.project@) && file_text(p.file) == Some(r.file@) && library_text(p.library) == Some(r.library@) && resource_text(p.resource) == Some(r.resource@) && view_text(p.view) == Some(r.view@) && logic_text(p.logic) == Some(r.logic@)
    && (match (p.resource_files, r.resource_files) { (None, None) => true, (Some(f), Some(l)) => listing(f, l@), _ => false })
}
