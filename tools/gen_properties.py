import json
P=[]
def p(id,title,st,over,q,why,files,syms):
    assert len(title)<=80
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=s,where=files[0]) for s in syms])))
I=["inputs"]
p("C01","Encryption is lossless and Sketchware-compatible",
"Encrypting any byte string and decrypting the result gives back exactly the original bytes, in memory and through the file helpers alike, and the ciphertext is AES-128-CBC with PKCS#7 padding under Sketchware's fixed key and IV. Decrypting bytes that are not such a ciphertext reports an error instead of panicking or returning data.",
I,"every byte string of every length, and every non-ciphertext","No test touches encryption at all.",["src/lib.rs"],["encrypt_sw","decrypt_sw_encrypted","encrypt_sw_file","decrypt_sw_file","encrypt_sw_file_to_file","KEY"])
p("C02","Opening encrypted data files puts each file in its own slot",
"Opening six encrypted data files yields a raw project whose project, file, library, resource, view and logic texts are exactly the six plaintexts, each in its own slot, with the given resource files attached unchanged (or marked absent by the variant without resource files). A file that does not decrypt, or does not decrypt to UTF-8, makes the whole opening fail with an error.",
I,"every six-tuple of data files and every resource file list","No test opens an encrypted project.",["src/parser/mod.rs"],["RawSketchwareProject::from_encrypted","RawSketchwareProject::from_encrypted_wo_res"])
p("C03","Scalar field encodings are lossless",
"Every colour, view size (-1 and -2 being the numbers of the two named sizes), screen option set, yes/no flag (numeric or textual), numeric-string and enumerated setting is written in Sketchware's own number or string form and reads back as the very same value. Values outside an enumerated setting's range, and malformed numeric or boolean strings, are rejected with an error.",
I,"all 2^32 colours, all sizes, all option sets, all enum values and all out-of-range numbers","Tests hold a few literals per field; they never sweep values or check the inverse.",["src/color.rs","src/parser/serde_util.rs","src/parser/file.rs","src/parser/view.rs"],["Color::serialize","Color::deserialize","Size::serialize","Size::deserialize","ActivityOptions::from_num","ActivityOptions::as_num","bool_to_one_zero","bool_to_str","string_to_u16"])
p("C04","Project metadata file round-trips",
"Writing a project's metadata and reading the text back gives an equal project, including its ids, names, versions, colours, icon flag and its creation time to the second, for every creation time in the years 0 to 9999. The creation time is written as fourteen digits yyyyMMddHHmmss in UTC, and a malformed date is rejected with an error rather than a panic.",
I,"every metadata value and every timestamp whose year is 0..9999","There is no test of the project file.",["src/parser/project.rs","src/parser/serde_util.rs"],["Project::parse","Project::reconstruct","date_to_timestamp::serialize","date_to_timestamp::deserialize"])
p("C05","Screen list file round-trips",
"Writing the screen list (activities and custom views) and reading it back gives the same activities and the same custom views, in the same order and in their own sections, even when either section is empty.",
I,"every list of activities and custom views, any names","One fixture with both sections filled is compared.",["src/parser/file.rs"],["File::parse","File::reconstruct","FileItem::parse","FileItem::reconstruct"])
p("C06","Library settings file round-trips",
"Writing the library settings and reading them back gives the same Firebase, AppCompat, AdMob and Google Map entries, each under its own heading. A text in which any of the four entries is missing or malformed is rejected with an error, and the four sections may appear in any order.",
I,"every combination of library entries and section order","One fixture is compared.",["src/parser/library.rs"],["Library::parse","Library::reconstruct","LibraryItem::parse","LibraryItem::reconstruct"])
p("C07","Resource list file round-trips",
"Writing the resource list and reading it back gives the same images, sounds and fonts, in the same order and each in its own section, whichever sections are empty.",
I,"every list of images, sounds and fonts","One fixture is compared.",["src/parser/resource.rs"],["Resource::parse","Resource::reconstruct","ResourceItem::parse","ResourceItem::reconstruct"])
p("C08","View file round-trips",
"Writing any number of layouts (empty ones included) and floating action buttons and reading the text back gives the same layouts and buttons, under the same screen names, in the same order, with every attribute of every view unchanged. This holds for every screen name that contains neither a dot nor a line break.",
I,"every set of layouts and FABs, every view attribute value, finite floats","One fixture with a single layout and a single FAB.",["src/parser/view.rs","src/util.rs"],["View::parse","View::reconstruct","Layout::parse_iter","Layout::reconstruct","AndroidView::parse","AndroidView::reconstruct","CountingIterator"])
p("C09","Logic file round-trips",
"Writing the logic of any number of screens and reading the text back gives, for every screen, the same variables, list variables, components, events, more blocks and block containers in the same order, whichever of them are absent or empty. This holds when each screen has at least one pool or container and all names and specs are free of line breaks, surrounding whitespace and the header syntax itself; the order of screens may follow the order in which their sections are written.",
I,"every collection of screens, pools and containers","One fixture with a single screen.",["src/parser/logic.rs"],["Logic::parse","Logic::reconstruct","VariablePool","ListVariablePool","ComponentPool","EventPool","MoreBlockPool","BlockContainer","BlockContainerHeader"])
p("C10","Parsed and raw projects convert without mixing or losing files",
"Turning a parsed project into raw texts writes each of the six parts into its own slot and keeps its resource files, and parsing those raw texts gives back an equal project. If any single part fails to parse, parsing the project fails with an error.",
I,"every parsed project with or without resource files","No test converts a whole project.",["src/parser/mod.rs"],["SketchwareProject::parse_from","SketchwareProject::parse","SketchwareProject::parse_wo_res","SketchwareProject::try_into"])
p("C11","Reading any text never panics",
"Handing arbitrary text to any data file reader (project, screen list, library, resource, view, logic, and each of their items, pools and headers) always returns either a value or an error; it never panics or fails to terminate.",
I,"every string","Tests only feed well-formed fixtures.",["src/parser/*.rs"],["Parsable::parse","Layout::parse_iter","BlockContainerHeader::parse","Variable::parse","ListVariable::parse","MoreBlock::parse","date_to_timestamp::deserialize"])
p("C12","Flat view lists and view trees are the same layout",
"Building a tree from a flat view list places every view exactly once, under the view its parent field names (or at the top for the root), keeping siblings in list order, and fails with an error if a view has no parent field or names a parent that does not precede it. Flattening that tree lists every view exactly once with parents before children, and building again gives the same tree (for views with distinct ids); searching a tree for an id finds exactly the view with that id, at any depth.",
I,"every layout with unique ids, any depth and breadth","No test builds a view tree.",["src/api/view.rs"],["parse_raw_layout","flatten_views","View::find_id","View::find_id_mut","View::from"])
p("C13","Flattening a view tree writes back every exposed attribute",
"In the flat list produced from a view tree each view carries its current id, its parent's id and type, its own type number, size, padding, margin, background colour, weight, weight sum, layout gravity and type-specific attributes as set in the tree, and every attribute the tree does not expose is kept from the raw view. A view of unrecognised type keeps the raw view's type number and attributes.",
I,"every edited tree","No test flattens a tree.",["src/api/view.rs"],["flatten_views","ViewType::apply_values_to_view","View::from"])
p("C14","View type numbers and view attributes correspond",
"Each of Sketchware's seventeen view kinds is recognised from its type number and exposes that view's own attribute values; writing the kind back gives the same type number and the same attribute values, so reading it again gives an equal kind. Unknown type numbers, and image or FAB views without an image name, are reported as errors for that view.",
I,"all 256 type numbers and all attribute values","No test exercises view kinds.",["src/api/view.rs"],["ViewType::from_view","ViewType::get_type_id","ViewType::apply_values_to_view"])
p("C15","Block spec text and block content correspond",
"Parsing a block's spec text (words and parameters written %kind or %kind.name) and its arguments yields its words and typed, optionally named parameters in order, each parameter taking the next argument (a literal or a reference to a block); printing the content gives the original spec text again and taking its arguments gives the original arguments. Too few arguments, unknown parameter kinds, malformed references and malformed numbers or booleans are errors, and no text makes it panic.",
I,"every spec text and every argument list","One fixture is printed but never compared.",["src/api/block.rs"],["BlockContent::parse","BlockContent::parse_wo_params","BlockContent::apply_args","BlockContent::take_args","BlockContent::get_args","BlockContent::to_string"])
p("C16","Block trees survive saving and reloading",
"Saving a tree of blocks (sequences, nested statements, blocks nested in arguments) as a block container and reading that container back gives an equal tree: same order, same nesting, same arguments, colours, op codes and block types. This holds for every tree whose nested sequences are non-empty, whose literal text arguments are present and do not start with the reference sign, and whose block contents are ones a spec text can express (words without blanks; no block used as a boolean argument named like a literal).",
I,"every block tree of any depth and width","The one test prints a converted tree and asserts nothing about it.",["src/api/block.rs"],["Blocks::to_block_container","Blocks::try_from","BlockContent::apply_blocks","BlockType::from","BlockType::to_string","BlockType::get_typename"])
p("C17","Saved block containers are well formed",
"In every block container produced from a block tree the ids are exactly 10, 11, 12, ... in list order, every next, nested-sequence and argument reference names a block of that container, and every block except the first is referenced exactly once. Sequences chain through next references and end with -1, and an absent nested sequence is written as -1. This holds for every tree without unresolved placeholders whose literal text arguments do not start with the reference sign and whose nested sequences are non-empty.",
I,"every block tree","No test inspects a produced container.",["src/api/block.rs"],["Blocks::to_block_container","convert_block","process_content"])
p("C18","Reading block containers is total and follows references",
"Reading any block container ends with either the tree reachable from its first block or an error, never a panic or an endless loop: dangling references, reference cycles, blocks used twice, malformed ids, types, specs and arguments are all errors. Blocks not reachable from the first one do not appear, and an empty container reads as an empty sequence.",
I,"every list of blocks, including cyclic and dangling ones","One well-formed fixture is read.",["src/api/block.rs"],["Blocks::try_from","parse_block","parse_blocks","BlockContent::parse","BlockContent::apply_blocks","BlockType::from"])
p("C19","Component kinds and component records correspond",
"Each of the twenty-one component kinds maps to its own type number with its path or MIME type as first parameter, and reading that record back gives the same kind under the same id. Any other type number is rejected with an error.",
I,"all kinds, ids, parameters and all 256 type numbers","No test exercises component kinds.",["src/api/component.rs","src/parser/logic.rs"],["ComponentKind::from_parser_component","ComponentKind::into_parser_component","Component::new_empty","Component::new_1param"])
p("C20","Events keep their identity and find their code",
"Converting an event record to an event and back keeps its name, kind, target id and (for components) target type; activity events are written with their own name as target. The container an event's code lives in is named target_event for view and component events and event_event for activity events, except onCreate, whose code lives in onCreate_initializeLogic; unknown event kinds are errors.",
I,"all events, names and kinds","No test converts events.",["src/api/screen.rs"],["Event::try_from","Event::into_parser_event","Event::get_block_container_id","EventType::from_parser_event","EventType::apply_to_parser_event","MoreBlock::into_parser_more_block"])
p("C21","A screen is assembled from the right pieces",
"A screen built from its screen-list entry, layout and logic carries exactly the settings of the entry, the layout's views, the logic's variables, lists and components, and gives every event and more block precisely the code of its own container (none if there is none). The onCreate code appears as a first event exactly when its container exists.",
I,"every screen entry, layout and logic","No test builds a screen.",["src/api/screen.rs"],["Screen::from_parsed"])
p("C22","An opened project saves and reopens unchanged",
"Saving a project model and reopening the result gives an equal model: metadata, colours, icon, libraries, screens with their settings, layouts, FABs, variables, components, events, more blocks and code, custom views and resources with their files, in the same order. This holds for models whose names are consistent with Sketchware's naming (unique names, logic named after its layout, onCreate only as the screen's own event), with enabled libraries, and with view event target types and custom view settings at the defaults the model does not record.",
["inputs","histories"],"every such project model, after any edits through the model","No test builds or saves a project model.",["src/api/mod.rs","src/api/screen.rs","src/api/view.rs","src/api/block.rs"],["SketchwareProject::try_from","From<SketchwareProject>","to_screen_logic"])
p("C23","Resource registry behaves as one map keyed by id",
"Adding a resource under a free id makes it retrievable under that id with the given type and leaves every other resource untouched; adding under an id already used by any image, sound or font, or adding a file that does not exist, is refused with an error and changes nothing. Removing an id returns its resource and type and only that entry disappears; imaginary resource files take the type they are registered under.",
["inputs","histories"],"every sequence of additions, lookups and removals","No test exercises the registry.",["src/api/mod.rs"],["Resources::put_resource","Resources::get_resource","Resources::remove_resource","Resources::get_images","Resources::get_sounds","Resources::get_fonts"])
p("C24","Resource file lists are sorted into kinds without loss",
"Collecting a list of resource files assigns each to images, sounds, fonts or the custom icon by its declared type or by the folder of its path, keyed by file name, and turning the collection back into a list returns exactly the collected files. A path that does not exist or lies in no known resource folder is an error.",
I,"every list of resource files with distinct names per kind","No test exercises resource files.",["src/parser/mod.rs"],["ResourceFiles::try_from","ResourceFiles::into","ResourceFileWrapper::get_full_name"])
p("C25","Colours expose their channels and block categories invert",
"A colour built from alpha, red, green and blue channels reports exactly those channels (alpha 255 when built from three), a colour parsed from six or eight hex digits has those digits as channels, and its printed form is 0x followed by its eight hex digits. Each of the nine block categories has its own colour, a block of that colour reports that category, and any other colour is reported as unknown.",
I,"all channel values, all hex strings, all 2^32 colours","No test touches colours directly.",["src/color.rs","src/api/block.rs"],["Color::from_rgb","Color::from_argb","Color::alpha","Color::rgb","Color::parse_hex","Color::fmt","BlockCategory::into","BlockCategory::try_from","Block::new","Block::category"])
p("C26","Screens find their logic by Sketchware's naming rule",
"Opening a project attaches to each screen the logic whose name is the screen's file name with underscores removed, the first letter and every letter after an underscore in (ASCII) upper case, followed by Activity; a screen with no such logic opens with empty logic under that same name. No other screen's logic is ever attached.",
I,"every screen file name","Three names are tested on the private helper; never the lookup.",["src/api/mod.rs"],["view_name_to_logic","SketchwareProject::try_from"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
