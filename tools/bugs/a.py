TREE = '''use swrs::api::view::*;
use swrs::parser::view::Layout;
use swrs::parser::view::models::AndroidView;
fn v(id: &str, parent: &str, ty: u8) -> AndroidView { AndroidView::new_empty(id, ty, parent, 0) }
'''
BLK = '''use swrs::api::block::*;
use swrs::parser::logic::BlockContainer;
fn b(op: &str) -> Block { Block::new(BlockCategory::Control, op.to_string(), BlockContent::builder().text(op).build(), BlockType::Regular) }
fn arg(op: &str) -> Block { Block::new(BlockCategory::Operator, op.to_string(), BlockContent::builder().text(op).build(), BlockType::Argument(ArgumentBlockReturnType::String)) }
fn nest(op: &str, inner: Vec<Block>) -> Block { let mut x = b(op); x.sub_stack1 = Some(Blocks(inner)); x.block_type = BlockType::Control(BlockControl::OneNest); x }
fn nest2(op: &str, i1: Vec<Block>, i2: Vec<Block>) -> Block { let mut x = b(op); x.sub_stack1 = Some(Blocks(i1)); x.sub_stack2 = Some(Blocks(i2)); x.block_type = BlockType::Control(BlockControl::TwoNest); x }
'''
BUGS = [
 dict(id='c12-early-parent', property='C12',
  edits=[('src/api/view.rs', 'result.iter_mut().find_map(|i|i.find_id_mut(&parent_id))', 'result.iter_mut().rev().take(8).find_map(|i|i.find_id_mut(&parent_id))')],
  needs='a layout with more than eight views at the top whose first ones have children listed after them',
  breaks='a view whose parent is not among the last eight top views is refused as having no parent',
  main=TREE + '''fn main() {
    let mut l: Vec<AndroidView> = (0..12).map(|i| v(&format!("top{}", i), "root", 0)).collect();
    l.push(v("kid", "top1", 4));
    let t = parse_raw_layout(Layout(l)).expect("every parent precedes its children");
    assert_eq!(t.len(), 12);
    assert_eq!(t[1].children.len(), 1);
    assert_eq!(t[1].children[0].id, "kid");
}
'''),
 dict(id='c12-flatten-order', property='C12',
  edits=[('src/api/view.rs', '            children_result.append(\n                &mut flatten_views(\n                    view.children,\n                    Some(view.id),\n                    Some(view_type_id)\n                )\n            )',
   '            let mut nested = flatten_views(\n                view.children,\n                Some(view.id),\n                Some(view_type_id)\n            );\n            nested.append(&mut children_result);\n            children_result = nested;')],
  needs='two sibling views that share a child id space: rebuilding is unaffected unless grandchildren repeat an id of a later sibling; the flat order of cousins is reversed',
  breaks='(withdrawn)', main=TREE + 'fn main() {}\n', skip=True),
 dict(id='c13-parent-type', property='C13',
  edits=[('src/api/view.rs', '                    Some(view_type_id)\n', '                    Some(if parent_type == 12 { parent_type } else { view_type_id })\n')],
  needs='a view nested at least two deep below a vertical scroll view, with another kind of container in between',
  breaks='the parent type written for a grandchild of a vertical scroll view is the scroll view\'s, not its own parent\'s',
  main=TREE + '''fn main() {
    let l = vec![v("scroll", "root", 12), v("lin", "scroll", 0), v("txt", "lin", 4)];
    let flat = flatten_views(parse_raw_layout(Layout(l)).unwrap(), None, None);
    let get = |id: &str| flat.iter().find(|x| x.id == id).unwrap();
    assert_eq!(get("lin").parent_type, 12);
    assert_eq!(get("txt").parent.as_deref(), Some("lin"));
    assert_eq!(get("txt").parent_type, 0);
}
'''),
 dict(id='c14-seekbar', property='C14',
  edits=[('src/api/view.rs', '            ViewType::SeekBar { max_progress, progress } => {\n                view.max = max_progress;\n                view.progress = progress;', '            ViewType::SeekBar { max_progress, progress } => {\n                view.max = max_progress;\n                view.progress = progress.min(max_progress);')],
  needs='a seek bar whose progress is larger than its maximum',
  breaks='the progress of a seek bar is clamped when the view is written back',
  main=TREE + '''fn main() {
    let mut x = v("s", "root", 14);
    x.max = 10; x.progress = 25;
    let k = ViewType::from_view(&x).unwrap();
    let mut y = v("s", "root", 14);
    k.clone().apply_values_to_view(&mut y);
    assert_eq!((y.max, y.progress), (10, 25));
    assert_eq!(ViewType::from_view(&y).unwrap(), k);
}
'''),
 dict(id='c15-named-one-letter', property='C15',
  edits=[('src/api/block.rs', '''            if let Some(name) = p_name {
                output.push('.');
                output.push_str(name);
            }
''', '''            if let Some(name) = p_name.filter(|name| name.chars().any(|c| c.is_alphabetic())) {
                output.push('.');
                output.push_str(name);
            }
''')],
  needs='a parameter whose name has no letter in it, such as %s.1',
  breaks='the printed spec loses parameter names without letters',
  main=BLK + '''fn main() {
    let spec = "put %s.1 into %m.list";
    let c = BlockContent::parse(spec.to_string(), vec!["x".into(), "l".into()]).unwrap();
    assert_eq!(c.to_string(), spec);
    let _ = (b("a"), arg("a"), nest("a", vec![]), nest2("a", vec![], vec![]), BlockContainer(vec![]));
}
'''),
 dict(id='c16-second-nest-counter', property='C16',
  edits=[('src/api/block.rs', '                    let ss2_last_id = ss2_blocks.0\n                        .last()', '                    let ss2_last_id = ss2_blocks.0\n                        .first()')],
  needs='an if-else block whose else branch has at least two blocks and which is followed by another block',
  breaks='ids after an else branch are handed out twice, so the saved tree reads back wrongly',
  main=BLK + '''fn main() {
    let t = Blocks(vec![nest2("ifElse", vec![b("a")], vec![b("b"), b("c")]), b("d")]);
    let c: BlockContainer = t.clone().into();
    assert_eq!(Blocks::try_from(c).unwrap(), t);
    let _ = (arg("a"), nest("a", vec![]));
}
'''),
 dict(id='c17-list-order', property='C17',
  edits=[('src/api/block.rs', """            // then its args
            result.append(&mut block_args);

            // and its sub stacks
            result.append(&mut sub_stack_blocks);
""", """            // then its sub stacks
            result.append(&mut sub_stack_blocks);

            // and its args
            result.append(&mut block_args);
""")],
  needs='a block that has both a block argument and a nested sequence',
  breaks='the blocks of a container are no longer listed in the order of their ids',
  main=BLK + """fn main() {
    let mut o = nest("if", vec![b("x"), b("y")]);
    o.content = BlockContent::builder().text("if").arg(Argument::String { name: None, value: ArgValue::Block(arg("c")) }).build();
    let c: BlockContainer = Blocks(vec![o, b("z")]).into();
    let ids: Vec<u32> = c.0.iter().map(|b| b.id.parse().unwrap()).collect();
    assert_eq!(ids, vec![10, 11, 12, 13, 14]);
    let _ = nest2("a", vec![], vec![]);
}
"""),
 dict(id='c18-shared-block', property='C18',
  edits=[('src/api/block.rs', '            let parser_block = blocks.remove(&id)\n                .ok_or_else(|| BlockConversionError::BlockNotFound { id })?;', '            let parser_block = match blocks.get(&id) {\n                // literals may be shared between arguments\n                Some(block) if block.r#type == "b" && block.parameters.is_empty() => Some(block.clone()),\n                _ => blocks.remove(&id),\n            }.ok_or_else(|| BlockConversionError::BlockNotFound { id })?;')],
  needs='a container in which one boolean literal block is referenced twice',
  breaks='a block used twice is accepted instead of being reported',
  main=BLK + '''fn main() {
    let bl = |v: bool| ArgValue::Value(v);
    let mut o = b("and");
    o.content = BlockContent::builder().arg(Argument::Boolean { name: None, value: bl(true) }).text("and").arg(Argument::Boolean { name: None, value: bl(true) }).build();
    let mut c: BlockContainer = Blocks(vec![o]).into();
    assert!(Blocks::try_from(c.clone()).is_ok());
    let first = c.0[0].parameters[0].clone();
    c.0[0].parameters[1] = first;
    assert!(Blocks::try_from(c).is_err(), "a block used twice must be an error");
    let _ = (arg("a"), nest("a", vec![]), nest2("a", vec![], vec![]));
}
'''),
 dict(id='c19-request-focus', property='C19',
  edits=[], needs='', breaks='', main='', skip=True),
 dict(id='c23-remove-other', property='C23',
  edits=[('src/api/mod.rs', "        if let Some(font) = self.fonts.remove(id) {", "        let lower = ResourceId(id.0.to_lowercase());\n        if let Some(font) = self.fonts.remove(id).or_else(|| self.fonts.remove(&lower)) {")],
  needs='an id that is in no registry is removed while a font with the same id in lower case is there',
  breaks='removing an id removes an entry with another id',
  main="""use swrs::api::*;
use swrs::parser::*;
fn main() {
    let f = |n: &str, t| ResourceFileWrapper::make_random_id(n.to_string(), t);
    let mut r = Resources::new_empty();
    r.put_resource(ResourceId("title".into()), f("title.ttf", ResourceType::Font), ResourceType::Font).unwrap();
    assert!(r.remove_resource(&ResourceId("Title".into())).is_none());
    assert!(r.get_resource(&ResourceId("title".into())).is_some(), "another entry disappeared");
}
"""),
 dict(id='c20-container-name', property='C20',
  edits=[('src/api/screen.rs', 'EventType::ComponentEvent { id, .. } => format!("{}_{}", id, self.name),', 'EventType::ComponentEvent { id, .. } => format!("{}_{}", id.trim_end_matches(\'_\'), self.name),')],
  needs='a component event whose component id ends with an underscore',
  breaks='the container of a component event is looked up under another name',
  main='''use swrs::api::screen::*;
fn main() {
    let e = Event { name: "onSuccess".into(), event_type: EventType::ComponentEvent { id: "db_".into(), component_type: 2 }, code: Default::default() };
    assert_eq!(e.get_block_container_id(), "db__onSuccess");
}
'''),
 dict(id='c21-code-of-event', property='C21',
  edits=[('src/api/screen.rs', '''                        .remove(event.get_block_container_id().as_str())
                        .unwrap_or_default();
''', '''                        .remove(event.get_block_container_id().as_str())
                        .unwrap_or_else(|| logic_entry.block_containers.remove(event.name.as_str()).unwrap_or_default());
''')],
  needs='an event without a container of its own, in a logic that has a container named like the bare event',
  breaks='an event is given the code of a container that is not its own',
  main='''use swrs::api::screen::*;
use swrs::parser::{Parsable, file::*, view::Layout, logic::*, logic::event};
fn main() {
    let logic = Logic::parse("@MainActivity.java_events\\n{\\"eventName\\":\\"onClick\\",\\"eventType\\":1,\\"targetId\\":\\"b\\",\\"targetType\\":3}\\n\\n@MainActivity.java_onClick\\n{\\"color\\":-1,\\"id\\":\\"10\\",\\"nextBlock\\":-1,\\"opCode\\":\\"x\\",\\"parameters\\":[],\\"spec\\":\\"x\\",\\"subStack1\\":-1,\\"subStack2\\":-1,\\"type\\":\\" \\",\\"typeName\\":\\"\\"}\\n").unwrap();
    let l = logic.screens.get("MainActivity").unwrap().clone();
    let f = File::parse("@activity\\n{\\"fileName\\":\\"main\\",\\"fileType\\":0,\\"keyboardSetting\\":0,\\"options\\":0,\\"orientation\\":0,\\"theme\\":-1}\\n@customview\\n").unwrap();
    let s = Screen::from_parsed("main".into(), "MainActivity".into(), f.activities[0].clone(), Layout(vec![]), l, None).unwrap();
    assert_eq!(s.events.len(), 1);
    assert!(s.events[0].code.0.is_empty(), "the event was given code that is not its own");
    let _ = std::marker::PhantomData::<event::Event>;
}
'''),
 dict(id='c26-digit-case', property='C26',
  edits=[('src/api/mod.rs', '''                } else if capitalize {
                    capitalize = false;
                    ch.to_ascii_uppercase()''', '''                } else if capitalize {
                    capitalize = ch.is_ascii_digit();
                    ch.to_ascii_uppercase()''')],
  needs='a screen whose file name has a digit directly after an underscore, followed by a letter (page_2b)',
  breaks='the logic of such a screen is looked up under another name',
  main='''use swrs::parser::*;
use swrs::api::SketchwareProject as Model;
fn main() {
    let file = "@activity\\n{\\"fileName\\":\\"page_2b\\",\\"fileType\\":0,\\"keyboardSetting\\":0,\\"options\\":0,\\"orientation\\":0,\\"theme\\":-1}\\n@customview\\n";
    let logic = "@Page2bActivity.java_var\\n1:count\\n";
    let lib = |n: &str, t: u8| format!("@{}\\n{{\\"adUnits\\":[],\\"data\\":\\"\\",\\"libType\\":{},\\"reserved1\\":\\"\\",\\"reserved2\\":\\"\\",\\"reserved3\\":\\"\\",\\"testDevices\\":[],\\"useYn\\":\\"N\\"}}\\n", n, t);
    let library = format!("{}{}{}{}", lib("firebaseDB", 0), lib("compat", 1), lib("admob", 2), lib("googleMap", 3));
    let project = "{\\"custom_icon\\":false,\\"sc_ver_code\\":\\"1\\",\\"my_ws_name\\":\\"W\\",\\"color_accent\\":-1,\\"my_app_name\\":\\"A\\",\\"sc_ver_name\\":\\"1\\",\\"sc_id\\":\\"601\\",\\"color_primary\\":-1,\\"color_control_highlight\\":1,\\"color_control_normal\\":-1,\\"my_sc_reg_dt\\":\\"20210101000000\\",\\"sketchware_ver\\":150,\\"my_sc_pkg_name\\":\\"a.b\\",\\"color_primary_dark\\":-1}";
    let raw = RawSketchwareProject { project: project.into(), file: file.into(), library, resource: "@images\\n@sounds\\n@fonts\\n".into(), view: "".into(), logic: logic.into(), resource_files: None };
    let p = SketchwareProject::parse_from(raw).expect("parse");
    let m = Model::try_from(p).expect("model");
    assert_eq!(m.screens[0].java_name, "Page2bActivity");
    assert_eq!(m.screens[0].variables.len(), 1, "the logic of the screen was not attached");
}
'''),
]
BUGS = [b for b in BUGS if not b.get('skip')]
