pub use crate::parser::project::Project as PProject;
pub use crate::parser::file::File as PFile;
pub use crate::parser::library::Library as PLibrary;
pub use crate::parser::resource::Resource as PResource;
pub use crate::parser::view::View as PView;
pub use crate::parser::logic::Logic as PLogic;
/// what the six readers and writers do; their own contracts are with the six files
pub uninterp spec fn project_read(s: Seq<char>) -> Option<PProject>;
pub uninterp spec fn project_text(x: PProject) -> Option<Seq<char>>;
pub uninterp spec fn file_read(s: Seq<char>) -> Option<PFile>;
pub uninterp spec fn file_text(x: PFile) -> Option<Seq<char>>;
pub uninterp spec fn library_read(s: Seq<char>) -> Option<PLibrary>;
pub uninterp spec fn library_text(x: PLibrary) -> Option<Seq<char>>;
pub uninterp spec fn resource_read(s: Seq<char>) -> Option<PResource>;
pub uninterp spec fn resource_text(x: PResource) -> Option<Seq<char>>;
pub uninterp spec fn view_read(s: Seq<char>) -> Option<PView>;
pub uninterp spec fn view_text(x: PView) -> Option<Seq<char>>;
pub uninterp spec fn logic_read(s: Seq<char>) -> Option<PLogic>;
pub uninterp spec fn logic_text(x: PLogic) -> Option<Seq<char>>;
