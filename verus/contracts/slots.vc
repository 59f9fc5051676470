@fn parser::RawSketchwareProject::new
    ensures r == (RawSketchwareProject { project: $1, file: $2, library: $3, resource: $4, view: $5, logic: $6, resource_files: Some($7) }),
@fn parser::RawSketchwareProject::new_wo_res
    ensures r == (RawSketchwareProject { project: $1, file: $2, library: $3, resource: $4, view: $5, logic: $6, resource_files: None }),
@fn parser::RawSketchwareProject::from_encrypted
    ensures
        r is Ok <==> opened($1@) is Some && opened($2@) is Some && opened($3@) is Some && opened($4@) is Some && opened($5@) is Some && opened($6@) is Some,
        r matches Ok(x) ==> opened($1@) == Some(x.project@) && opened($2@) == Some(x.file@) && opened($3@) == Some(x.library@) && opened($4@) == Some(x.resource@) && opened($5@) == Some(x.view@) && opened($6@) == Some(x.logic@) && x.resource_files == Some($7),
@fn parser::RawSketchwareProject::from_encrypted_wo_res
    ensures
        r is Ok <==> opened($1@) is Some && opened($2@) is Some && opened($3@) is Some && opened($4@) is Some && opened($5@) is Some && opened($6@) is Some,
        r matches Ok(x) ==> opened($1@) == Some(x.project@) && opened($2@) == Some(x.file@) && opened($3@) == Some(x.library@) && opened($4@) == Some(x.resource@) && opened($5@) == Some(x.view@) && opened($6@) == Some(x.logic@) && x.resource_files is None,
@fn parser::SketchwareProject::parse_from
@try_into crate::parser::ResourceFiles
    ensures r is Ok <==> readable($1), r matches Ok(p) ==> read_as($1, p),
@fn parser::SketchwareProject::parse
    ensures r is Ok <==> readable(RawSketchwareProject { project: $1, file: $2, library: $3, resource: $4, view: $5, logic: $6, resource_files: Some($7) }), r matches Ok(p) ==> read_as(RawSketchwareProject { project: $1, file: $2, library: $3, resource: $4, view: $5, logic: $6, resource_files: Some($7) }, p),
@fn parser::SketchwareProject::parse_wo_res
    ensures r is Ok <==> readable(RawSketchwareProject { project: $1, file: $2, library: $3, resource: $4, view: $5, logic: $6, resource_files: None }), r matches Ok(p) ==> read_as(RawSketchwareProject { project: $1, file: $2, library: $3, resource: $4, view: $5, logic: $6, resource_files: None }, p),
@fn parser::SketchwareProject::try_into
    ensures r is Ok <==> writable(self), r matches Ok(x) ==> written_as(self, x),
@fn parser::project::Project::parse
    ensures r is Ok <==> project_read($1@) is Some, r matches Ok(x) ==> project_read($1@) == Some(x),
@fn parser::project::Project::reconstruct
    ensures r is Ok <==> project_text(*self) is Some, r matches Ok(x) ==> project_text(*self) == Some(x@),
