TREE = '''use swrs::api::view::*;
use swrs::parser::view::Layout;
use swrs::parser::view::models::AndroidView;
fn v(id: &str, parent: &str, ty: u8) -> AndroidView { AndroidView::new_empty(id, ty, parent, 0) }
'''
BLK = '''use swrs::api::block::*;
use swrs::parser::logic::BlockContainer;
fn b(op: &str) -> Block { Block::new(BlockCategory::Control, op.to_string(), BlockContent::builder().text(op).build(), BlockType::Regular) }
'''
PRJ = '''use swrs::parser::*;
use swrs::api::SketchwareProject as Model;
fn lib(n: &str, t: u8) -> String { format!("@{}\\n{{\\"adUnits\\":[],\\"data\\":\\"\\",\\"libType\\":{},\\"reserved1\\":\\"\\",\\"reserved2\\":\\"\\",\\"reserved3\\":\\"\\",\\"testDevices\\":[],\\"useYn\\":\\"N\\"}}\\n", n, t) }
fn raw(activities: &[&str], view: &str, logic: &str) -> RawSketchwareProject {
    let mut file = String::from("@activity\\n");
    for a in activities { file.push_str(&format!("{{\\"fileName\\":\\"{}\\",\\"fileType\\":0,\\"keyboardSetting\\":0,\\"options\\":0,\\"orientation\\":0,\\"theme\\":-1}}\\n", a)); }
    file.push_str("@customview\\n");
    let library = format!("{}{}{}{}", lib("firebaseDB", 0), lib("compat", 1), lib("admob", 2), lib("googleMap", 3));
    let project = "{\\"custom_icon\\":false,\\"sc_ver_code\\":\\"1\\",\\"my_ws_name\\":\\"W\\",\\"color_accent\\":-1,\\"my_app_name\\":\\"A\\",\\"sc_ver_name\\":\\"1\\",\\"sc_id\\":\\"601\\",\\"color_primary\\":-1,\\"color_control_highlight\\":1,\\"color_control_normal\\":-1,\\"my_sc_reg_dt\\":\\"20210101000000\\",\\"sketchware_ver\\":150,\\"my_sc_pkg_name\\":\\"a.b\\",\\"color_primary_dark\\":-1}";
    RawSketchwareProject { project: project.into(), file, library, resource: "@images\\n@sounds\\n@fonts\\n".into(), view: view.into(), logic: logic.into(), resource_files: None }
}
'''
BUGS = [
 dict(id='c01-no-truncate', property='C01',
  edits=[('src/lib.rs', '''    std::fs::write(output_file, output_ciphertext)
        .map_err(CryptoError::IOError)?;
''', '''    std::fs::OpenOptions::new().write(true).create(true).open(output_file)
        .and_then(|mut f| io::Write::write_all(&mut f, &output_ciphertext))
        .map_err(CryptoError::IOError)?;
''')],
  needs='an output file that already exists and is longer than the new ciphertext',
  breaks='the rest of the old file stays behind the new ciphertext, so decrypting the file does not give the plaintext back',
  main='''fn main() {
    let d = std::env::temp_dir().join(format!("vh-demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let (i, o) = (d.join("in"), d.join("out"));
    std::fs::write(&i, b"short").unwrap();
    std::fs::write(&o, vec![7u8; 64]).unwrap();
    swrs::encrypt_sw_file_to_file(&i, Some(&o)).unwrap();
    let r = swrs::decrypt_sw_file(&o);
    let _ = std::fs::remove_dir_all(&d);
    assert_eq!(r.ok(), Some(b"short".to_vec()));
}
'''),
 dict(id='c02-empty-logic', property='C02',
  edits=[('src/parser/mod.rs', '''            logic: decrypt!(logic, "logic"),
            resource_files: None''', '''            logic: if logic.is_empty() { String::new() } else { decrypt!(logic, "logic") },
            resource_files: None''')],
  needs='opening without resource files, with a logic file of no bytes at all (which is no ciphertext)',
  breaks='a file that does not decrypt is taken as an empty text instead of an error',
  main='''use swrs::parser::RawSketchwareProject;
fn main() {
    let e = |s: &str| swrs::encrypt_sw(s.as_bytes());
    assert!(RawSketchwareProject::from_encrypted_wo_res(e("p"), e("f"), e("l"), e("r"), e("v"), vec![]).is_err());
    assert_eq!(RawSketchwareProject::from_encrypted_wo_res(e("p"), e("f"), e("l"), e("r"), e("v"), e("g")).unwrap().logic, "g");
}
'''),
 dict(id='c03-single-precision', property='C03',
  edits=[('src/color.rs', 'self.visit_f64(v as f64)', 'self.visit_f64(v as f32 as f64)')],
  needs='a colour whose alpha is neither 0 nor 255 and whose low bits do not fit in 24 bits of precision',
  breaks='the lowest bits of translucent colours are lost when they are read',
  main='''use swrs::color::Color;
fn main() {
    for v in [0xff123457u32, 0x00654321, 0x20008dcd, 0x7fffffff, 0x80000001] {
        let c = Color::from(v);
        let t = serde_json::to_string(&c).unwrap();
        assert_eq!(serde_json::from_str::<Color>(&t).unwrap(), c, "{}", t);
    }
}
'''),
 dict(id='c05-drawer', property='C05',
  edits=[('src/parser/file.rs', '''            self.custom_views
                .iter()
''', '''            self.custom_views
                .iter().filter(|i| i.file_type != FileType::Activity)
'''), ('src/parser/file.rs', '''            self.activities
                .iter()
''', '''            self.activities
                .iter().filter(|i| i.file_type != FileType::Drawer)
''')],
  needs='an entry of the activity section whose file type is that of a drawer, or one of the custom views with that of an activity',
  breaks='such entries vanish when the screen list is written',
  main='''use swrs::parser::Parsable;
use swrs::parser::file::*;
fn main() {
    let t = "@activity\\n{\\"fileName\\":\\"main\\",\\"fileType\\":2,\\"keyboardSetting\\":0,\\"options\\":0,\\"orientation\\":0,\\"theme\\":-1}\\n@customview\\n{\\"fileName\\":\\"c\\",\\"fileType\\":1,\\"keyboardSetting\\":0,\\"options\\":0,\\"orientation\\":0,\\"theme\\":-1}";
    let f = File::parse(t).unwrap();
    assert_eq!(f.activities.len(), 1);
    assert_eq!(File::parse(&f.reconstruct().unwrap()).unwrap(), f);
}
'''),
 dict(id='c06-order', property='C06',
  edits=[('src/parser/library.rs', '"@compat" => library_item_set!', '"@compat" if admob.is_none() => library_item_set!')],
  needs='a library file in which the AdMob section precedes the AppCompat one',
  breaks='the sections no longer may come in any order: the AppCompat entry is reported missing',
  main='''use swrs::parser::Parsable;
use swrs::parser::library::Library;
fn s(n: &str, t: u8) -> String { format!("@{}\\n{{\\"adUnits\\":[],\\"data\\":\\"\\",\\"libType\\":{},\\"reserved1\\":\\"\\",\\"reserved2\\":\\"\\",\\"reserved3\\":\\"\\",\\"testDevices\\":[],\\"useYn\\":\\"N\\"}}\\n", n, t) }
fn main() {
    let a = format!("{}{}{}{}", s("firebaseDB", 0), s("compat", 1), s("admob", 2), s("googleMap", 3));
    let b = format!("{}{}{}{}", s("googleMap", 3), s("admob", 2), s("compat", 1), s("firebaseDB", 0));
    assert_eq!(Library::parse(&a).unwrap(), Library::parse(&b).expect("any order"));
}
'''),
 dict(id='c07-type-one', property='C07',
  edits=[('src/parser/resource.rs', '''    // Unknown usage, this value is always 1
    #[serde(rename = "resType")]''', '''    // Unknown usage, this value is always 1
    #[serde(rename = "resType", skip_deserializing, default = "usual_type")]'''),
    ('src/parser/resource.rs', 'impl Parsable for ResourceItem {', 'fn usual_type() -> u8 { 1 }\n\nimpl Parsable for ResourceItem {')],
  needs='a resource whose resType is not 1',
  breaks='the type number of a resource is not read back',
  main='''use swrs::parser::Parsable;
use swrs::parser::resource::*;
fn main() {
    let r = Resource { images: vec![ResourceItem { full_name: "a.png".into(), name: "a".into(), r#type: 2 }], sounds: vec![], fonts: vec![] };
    assert_eq!(Resource::parse(&r.reconstruct().unwrap()).unwrap(), r);
}
'''),
 dict(id='c09-empty-container', property='C09',
  edits=[('src/parser/logic.rs', 'for (container_id, blocks) in screen.block_containers.iter() {', 'for (container_id, blocks) in screen.block_containers.iter().filter(|(_, b)| !b.0.is_empty()) {')],
  needs='a screen with a block container that has no blocks',
  breaks='empty block containers are lost when the logic is written',
  main='''use swrs::parser::Parsable;
use swrs::parser::logic::*;
fn main() {
    let mut s = ScreenLogic::new_empty("MainActivity".to_string());
    s.variables = Some(Default::default());
    s.block_containers.insert("onCreate_initializeLogic".to_string(), BlockContainer(vec![]));
    let mut l = Logic { screens: Default::default() };
    l.screens.insert("MainActivity".to_string(), s);
    assert_eq!(Logic::parse(&l.reconstruct().unwrap()).unwrap(), l);
}
'''),
 dict(id='c10-empty-files', property='C10',
  edits=[('src/parser/mod.rs', '''            resource_files: raw_swproj.resource_files
                .map(|r| r.try_into())''', '''            resource_files: raw_swproj.resource_files
                .filter(|r| !r.is_empty()).map(|r| r.try_into())''')],
  needs='a project with a list of resource files that is present but empty',
  breaks='an empty list of resource files turns into an absent one',
  main=PRJ + '''fn main() {
    let mut r = raw(&["main"], "", "");
    r.resource_files = Some(vec![]);
    let p = SketchwareProject::parse_from(r).unwrap();
    assert_eq!(p.resource_files, Some(ResourceFiles::default()));
    let back: RawSketchwareProject = p.clone().try_into().unwrap();
    assert_eq!(SketchwareProject::parse_from(back).unwrap(), p);
    let _ = std::marker::PhantomData::<Model>;
}
'''),
 dict(id='c11-fab-at-end', property='C11',
  edits=[('src/parser/view.rs', '''                        lines.next()
                            .ok_or_else(|| ViewParseError::EOFAfterFabHeader {
                                screen_name: screen_name.to_string(),
                                line: lines.get_count()
                            })?
''', '''                        lines.next()
                            .expect("a fab follows its header")
''')],
  needs='a view file whose last line is the header of a floating action button',
  breaks='reading such a text panics',
  main='''use swrs::parser::Parsable;
use swrs::parser::view::View;
fn main() {
    assert!(View::parse("@main.xml_fab").is_err());
    assert!(View::parse("@main.xml\\n\\n@main.xml_fab").is_err());
}
'''),
 dict(id='c12-blank-parent', property='C12',
  edits=[('src/api/view.rs', '        if parent_id == "root" {', '        if parent_id == "root" || parent_id.is_empty() {')],
  needs='a view whose parent field is the empty text',
  breaks='a view that names a parent which does not exist is put at the top instead of being refused',
  main=TREE + '''fn main() {
    assert!(parse_raw_layout(Layout(vec![v("a", "root", 0), v("b", "", 4)])).is_err());
}
'''),
 dict(id='c13-weight-sum', property='C13',
  edits=[('src/api/view.rs', '        result_view.layout.weight_sum = view.weight_sum;', '        result_view.layout.weight_sum = view.weight_sum.max(view.children.len() as u32 / 4);')],
  needs='a view with at least four children and a weight sum below a quarter of their number',
  breaks='the weight sum written back is not the one of the tree',
  main=TREE + '''fn main() {
    let mut l = vec![v("p", "root", 0)];
    for i in 0..4 { l.push(v(&format!("k{}", i), "p", 4)); }
    let f = flatten_views(parse_raw_layout(Layout(l)).unwrap(), None, None);
    assert_eq!(f[0].layout.weight_sum, 0);
}
'''),
 dict(id='c15-lone-reference', property='C15',
  edits=[('src/api/block.rs', '''                's' => Argument::String {
                    name,
                    value: {
                        if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
                        let value = args.remove(0);

                        if value.starts_with("@") {''', '''                's' => Argument::String {
                    name,
                    value: {
                        if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
                        let value = args.remove(0);

                        if value.starts_with("@") && value.len() > 1 {''')],
  needs='a text parameter whose argument is the reference sign alone',
  breaks='a malformed reference is taken as a literal',
  main='''use swrs::api::block::*;
fn main() {
    assert!(BlockContent::parse("%s.view go".to_string(), vec!["@".to_string()]).is_err());
    assert!(BlockContent::parse("%s.view go".to_string(), vec!["@x".to_string()]).is_err());
    assert!(BlockContent::parse("%s.view go".to_string(), vec!["x".to_string()]).is_ok());
}
'''),
 dict(id='c16-whole-numbers', property='C16',
  edits=[('src/api/block.rs', '''                    Argument::Number { value, .. } => {
                        match value {
                            ArgValue::Value(val) => val.to_string(),''', '''                    Argument::Number { value, .. } => {
                        match value {
                            ArgValue::Value(val) => if val.fract() == 0.0 { (val as i64).to_string() } else { val.to_string() },''')],
  needs='a number argument that is whole and beyond the range of a 64-bit integer',
  breaks='such a number is clamped when the block is saved',
  main=BLK + '''fn main() {
    let mut x = b("n");
    x.content = BlockContent::builder().text("n").arg(Argument::Number { name: None, value: ArgValue::Value(1e20) }).build();
    let t = Blocks(vec![x]);
    let c: BlockContainer = t.clone().into();
    assert_eq!(Blocks::try_from(c).unwrap(), t);
}
'''),
 dict(id='c17-after-ending', property='C17',
  edits=[('src/api/block.rs', '                next_block: if last_block { -1 } else { (*id_counter + 1) as i32 },', '                next_block: if last_block || block.block_type == BlockType::Control(BlockControl::EndingBlock) { -1 } else { (*id_counter + 1) as i32 },')],
  needs='a sequence in which an ending block (break, finish) is not the last one',
  breaks='the chain ends at the ending block, the blocks after it are referenced by nothing',
  main=BLK + '''fn main() {
    let mut e = b("finishActivity");
    e.block_type = BlockType::Control(BlockControl::EndingBlock);
    let c: BlockContainer = Blocks(vec![b("a"), e, b("c")]).into();
    let n: Vec<i32> = c.0.iter().map(|x| x.next_block).collect();
    assert_eq!(n, [11, 12, -1]);
}
'''),
 dict(id='c18-loop-to-start', property='C18',
  edits=[('src/api/block.rs', '                if next_block.is_negative() { break }', '                if next_block.is_negative() || next_block as u32 == starting_id { break }')],
  needs='a container whose blocks lead back to the first block of their sequence',
  breaks='a reference cycle is read as if it ended there, not reported as an error',
  main='''use swrs::api::block::*;
use swrs::parser::logic::{Block as PB, BlockContainer};
fn p(id: &str, next: i32) -> PB { PB { color: 0xff000000u32.into(), id: id.into(), next_block: next, op_code: "o".into(), parameters: vec![], spec: "o".into(), sub_stack1: -1, sub_stack2: -1, r#type: " ".into(), type_name: "".into() } }
fn main() {
    assert!(Blocks::try_from(BlockContainer(vec![p("10", 11), p("11", -1)])).is_ok());
    assert!(Blocks::try_from(BlockContainer(vec![p("10", 11), p("11", 10)])).is_err());
}
'''),
 dict(id='c19-any-mime', property='C19',
  edits=[('src/api/component.rs', 'ComponentKind::FilePicker { mime_type } => ParserComponent::new_1param(id, mime_type, 16),', 'ComponentKind::FilePicker { mime_type } => ParserComponent::new_1param(id, if mime_type.is_empty() { "*/*".to_string() } else { mime_type }, 16),')],
  needs='a file picker without a MIME type',
  breaks='the record of such a file picker reads back as another kind',
  main='''use swrs::api::component::ComponentKind;
fn main() {
    let k = ComponentKind::FilePicker { mime_type: "".to_string() };
    let c = k.clone().into_parser_component("f".to_string());
    assert_eq!(ComponentKind::from_parser_component(&c).unwrap(), k);
}
'''),
 dict(id='c20-on-create-options', property='C20',
  edits=[('src/api/screen.rs', '''                "onCreate" => format!("{}_initializeLogic", self.name),''', '''                name if name.starts_with("onCreate") => format!("{}_initializeLogic", self.name),''')],
  needs='an activity event whose name begins with onCreate but is longer (onCreateOptionsMenu)',
  breaks='the code of that event is looked for in another container',
  main='''use swrs::api::screen::*;
fn main() {
    let e = Event { name: "onCreateOptionsMenu".to_string(), event_type: EventType::ActivityEvent, code: Default::default() };
    assert_eq!(e.get_block_container_id(), "onCreateOptionsMenu_onCreateOptionsMenu");
}
'''),
 dict(id='c21-empty-on-create', property='C21',
  edits=[('src/api/screen.rs', 'if logic_entry.block_containers.contains_key("onCreate_initializeLogic") {', 'if logic_entry.block_containers.get("onCreate_initializeLogic").map_or(false, |c| !c.0.is_empty()) {')],
  needs='a screen whose onCreate container exists but has no blocks',
  breaks='the onCreate event is missing although its container exists',
  main=PRJ + '''fn main() {
    let p = SketchwareProject::parse_from(raw(&["main"], "", "@MainActivity.java_onCreate_initializeLogic\\n")).unwrap();
    assert_eq!(p.logic.screens["MainActivity"].block_containers.len(), 1);
    let m = Model::try_from(p).unwrap();
    assert_eq!(m.screens[0].events.len(), 1);
}
'''),
 dict(id='c22-fab-disabled', property='C22',
  edits=[('src/api/mod.rs', '                if let Some(fab) = screen.fab {', '                if let Some(fab) = screen.fab.filter(|_| screen.fab_enabled || screen.layout.is_empty()) {')],
  needs='a screen that has a floating action button and a layout, while the button is switched off',
  breaks='the button is lost when the model is saved',
  main=PRJ + '''use swrs::parser::view::models::AndroidView;
use swrs::parser::Parsable;
fn main() {
    let mut fab = AndroidView::new_empty("_fab", 16, "root", 0);
    fab.parent = None; fab.parent_type = -1; fab.image.res_name = Some("add".into());
    let v = AndroidView::new_empty("t", 4, "root", 0);
    let view = format!("@main.xml\\n{}\\n\\n@main.xml_fab\\n{}", v.reconstruct().unwrap(), fab.reconstruct().unwrap());
    let m = Model::try_from(SketchwareProject::parse_from(raw(&["main"], &view, "")).unwrap()).unwrap();
    assert!(m.screens[0].fab.is_some());
    let r: RawSketchwareProject = m.clone().try_into().unwrap();
    let m2 = Model::try_from(SketchwareProject::parse_from(r).unwrap()).unwrap();
    assert_eq!(m, m2);
}
'''),
 dict(id='c22-firebase-blank', property='C22',
  edits=[('src/api/mod.rs', 'firebase_db: match val.libraries.firebase {', 'firebase_db: match val.libraries.firebase.filter(|f| !f.project_id.is_empty()) {')],
  needs='an enabled Firebase library whose project id is still empty',
  breaks='such a library is saved as disabled, with its other settings lost',
  main=PRJ + '''use swrs::api::library::Firebase;
fn main() {
    let mut m = Model::try_from(SketchwareProject::parse_from(raw(&["main"], "", "")).unwrap()).unwrap();
    m.libraries.firebase = Some(Firebase { project_id: "".into(), app_id: "a".into(), api_key: "k".into(), storage_bucket: "b".into() });
    let r: RawSketchwareProject = m.clone().try_into().unwrap();
    let m2 = Model::try_from(SketchwareProject::parse_from(r).unwrap()).unwrap();
    assert_eq!(m.libraries, m2.libraries);
}
'''),
 dict(id='c23-folder-exists', property='C23',
  edits=[('src/api/mod.rs', '            if !path.exists() {\n                return Err(ResourceAdditionError', '            if path.parent().map_or(true, |p| !p.exists()) {\n                return Err(ResourceAdditionError')],
  needs='adding a file that does not exist, in a folder that does',
  breaks='a file that does not exist is accepted',
  main='''use swrs::api::*;
use swrs::parser::*;
fn main() {
    let d = std::env::temp_dir().join(format!("vh-demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let mut r = Resources::new_empty();
    let a = r.put_resource(ResourceId("x".into()), ResourceFileWrapper::Path(d.join("no.png")), ResourceType::Image).is_err();
    let b = r.put_resource(ResourceId("y".into()), ResourceFileWrapper::Path(d.join("no").join("no.png")), ResourceType::Image).is_err();
    let _ = std::fs::remove_dir_all(&d);
    assert!(a && b && r.get_images().is_empty());
}
'''),
 dict(id='c24-same-name', property='C24',
  edits=[('src/parser/mod.rs', '''        result.append(&mut self.images.into_values().collect());
        result.append(&mut self.sounds.into_values().collect());
        result.append(&mut self.fonts.into_values().collect());
''', '''        let mut files = self.images;
        files.extend(self.sounds);
        files.extend(self.fonts);
        result.append(&mut files.into_values().collect());
''')],
  needs='two resources of different kinds with the same file name',
  breaks='one of them is lost when the collection is turned back into a list',
  main='''use swrs::parser::*;
fn main() {
    let f = |id, t| ResourceFileWrapper::U32Id { id, res_full_name: "a".into(), res_type: t };
    let r = ResourceFiles::try_from(vec![f(1, ResourceType::Image), f(2, ResourceType::Sound), f(3, ResourceType::Font)]).unwrap();
    let l: Vec<ResourceFileWrapper> = r.into();
    assert_eq!(l.len(), 3);
}
'''),
 dict(id='c25-thin-alpha', property='C25',
  edits=[('src/color.rs', '''impl Display for Color {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str(&*format!("{:#010x}", self.value))''', '''impl Display for Color {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str(&*format!("{:#x}", self.value))''')],
  needs='a colour whose alpha is below 16',
  breaks='the printed form of such a colour has fewer than eight digits',
  main='''use swrs::color::Color;
fn main() {
    assert_eq!(Color::from_argb(255, 1, 2, 3).to_string(), "0xff010203");
    assert_eq!(Color::from_argb(0, 1, 2, 3).to_string(), "0x00010203");
}
'''),
 dict(id='c26-plain-name', property='C26',
  edits=[('src/api/mod.rs', '''                    .remove(view_name_to_logic(name.as_str()).as_str())
                    .unwrap_or_else(||ScreenLogic''', '''                    .remove(view_name_to_logic(name.as_str()).as_str()).or_else(||val.logic.screens.remove(name.as_str()))
                    .unwrap_or_else(||ScreenLogic''')],
  needs='a screen without logic of its own, and a logic stored under that screen\'s plain file name',
  breaks='logic that is not named by the rule is attached to the screen',
  main=PRJ + '''fn main() {
    let p = SketchwareProject::parse_from(raw(&["main"], "", "@main.java_var\\n1:count\\n")).unwrap();
    let m = Model::try_from(p).unwrap();
    assert_eq!(m.screens[0].java_name, "MainActivity");
    assert!(m.screens[0].variables.is_empty());
}
'''),
]
