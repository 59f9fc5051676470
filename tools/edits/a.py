EDITS = [
 dict(id='r01-flatten-helper', props=['C12','C13','C22'], edits=[('src/api/view.rs', '''        result_view.layout.padding_bottom = view.padding.bottom;
        result_view.layout.padding_left = view.padding.left;
        result_view.layout.padding_right = view.padding.right;
        result_view.layout.padding_top = view.padding.top;

        result_view.layout.margin_bottom = view.margin.bottom;
        result_view.layout.margin_left = view.margin.left;
        result_view.layout.margin_right = view.margin.right;
        result_view.layout.margin_top = view.margin.top;
''', '''        apply_sides(&mut result_view, &view.padding, &view.margin);
'''), ('src/api/view.rs', '/// Flattens a list of API [`View`] models', '''fn apply_sides(target: &mut AndroidView, padding: &SidesValue, margin: &SidesValue) {
    target.layout.padding_bottom = padding.bottom;
    target.layout.padding_left = padding.left;
    target.layout.padding_right = padding.right;
    target.layout.padding_top = padding.top;
    target.layout.margin_bottom = margin.bottom;
    target.layout.margin_left = margin.left;
    target.layout.margin_right = margin.right;
    target.layout.margin_top = margin.top;
}

/// Flattens a list of API [`View`] models''')]),
 dict(id='r02-flatten-reorder', props=['C12','C13'], edits=[('src/api/view.rs', '''        result_view.layout.height = view.height;
        result_view.layout.width = view.width;
''', ''), ('src/api/view.rs', '''        result_view.layout.weight_sum = view.weight_sum;
''', '''        result_view.layout.weight_sum = view.weight_sum;
        result_view.layout.width = view.width;
        result_view.layout.height = view.height;
''')]),
 dict(id='r03-layout-match', props=['C12'], edits=[('src/api/view.rs', '''        let parent_id =
            view.parent.as_ref().ok_or_else(||ParseLayoutError::NoParentField {
                view_id: view.id.to_owned()
            })?;

        if parent_id == "root" {
            result.push(view.into());
        } else {
            let parent''', '''        let parent_id = match view.parent.as_ref() {
            Some(parent_id) => parent_id,
            None => return Err(ParseLayoutError::NoParentField {
                view_id: view.id.to_owned()
            })
        };

        if parent_id == "root" {
            result.push(View::from(view));
        } else {
            let parent''')]),
 dict(id='r04-find-loop', props=['C12'], edits=[('src/api/view.rs', '''            self.children
                .iter()
                .find_map(|i| i.find_id(id))
''', '''            for child in &self.children {
                if let Some(found) = child.find_id(id) {
                    return Some(found);
                }
            }

            None
''')]),
 dict(id='r05-file-whilelet', props=['C05'], edits=[('src/parser/file.rs', '''        loop {
            let line = iterator.next();
            if line.is_none() { break; }
            let line = line.unwrap();

''', '''        while let Some(line) = iterator.next() {
''')]),
 dict(id='r06-file-forloop', props=['C05'], edits=[('src/parser/file.rs', '''        let mut iterator = file.split("\\n");
''', ''), ('src/parser/file.rs', '''        loop {
            let line = iterator.next();
            if line.is_none() { break; }
            let line = line.unwrap();

''', '''        for line in file.split("\\n") {
''')]),
 dict(id='r07-fileitem-helper', props=['C05'], edits=[('src/parser/file.rs', '''                let file_item = FileItem::parse(line)
                    .map_err(|err| FileParseError::FileItemParseError {
                        source: err,
                        line: line_count,
                        content: line.to_string()
                    })?;
''', '''                let file_item = parse_item(line, line_count)?;
'''), ('src/parser/file.rs', '''#[derive(Error, Debug)]
pub enum FileParseError {''', '''fn parse_item(line: &str, line_count: u32) -> Result<FileItem, FileParseError> {
    FileItem::parse(line)
        .map_err(|err| FileParseError::FileItemParseError {
            source: err,
            line: line_count,
            content: line.to_string()
        })
}

#[derive(Error, Debug)]
pub enum FileParseError {''')]),
 dict(id='r08-options-const', props=['C03','C05'], edits=[('src/parser/file.rs', '''        let mut result = 0u8;

        if self.toolbar_enabled { result |= ActivityOptionMask::Toolbar as u8; }
        if self.fullscreen_enabled { result |= ActivityOptionMask::Fullscreen as u8; }
''', '''        let mut result = 0u8;

        if self.fullscreen_enabled { result |= ActivityOptionMask::Fullscreen as u8; }
        if self.toolbar_enabled { result |= ActivityOptionMask::Toolbar as u8; }
''')]),
 dict(id='r09-options-helper', props=['C03'], edits=[('src/parser/file.rs', '''            toolbar_enabled: num & ActivityOptionMask::Toolbar as u8 == ActivityOptionMask::Toolbar as u8,
            fullscreen_enabled: num & ActivityOptionMask::Fullscreen as u8 == ActivityOptionMask::Fullscreen as u8,
            drawer_enabled: num & ActivityOptionMask::Drawer as u8 == ActivityOptionMask::Drawer as u8,
            fab_enabled: num & ActivityOptionMask::Fab as u8 == ActivityOptionMask::Fab as u8,
''', '''            toolbar_enabled: has_bit(num, ActivityOptionMask::Toolbar),
            fullscreen_enabled: has_bit(num, ActivityOptionMask::Fullscreen),
            drawer_enabled: has_bit(num, ActivityOptionMask::Drawer),
            fab_enabled: has_bit(num, ActivityOptionMask::Fab),
'''), ('src/parser/file.rs', '''impl ActivityOptions {
''', '''fn has_bit(num: u8, mask: ActivityOptionMask) -> bool {
    num & mask as u8 == mask as u8
}

impl ActivityOptions {
''')]),
 dict(id='r10-resource-match', props=['C07'], edits=[('src/parser/resource.rs', '''                if cur_section == ResourceSection::Images {
                    &mut result.images
                } else if cur_section == ResourceSection::Sounds {
                    &mut result.sounds
                } else if cur_section == ResourceSection::Fonts {
                    &mut result.fonts
                } else { break }
                    .push(resource_item)
''', '''                match cur_section {
                    ResourceSection::Images => result.images.push(resource_item),
                    ResourceSection::Sounds => result.sounds.push(resource_item),
                    ResourceSection::Fonts => result.fonts.push(resource_item),
                    ResourceSection::None => break
                }
''')]),
 dict(id='r11-resource-fold', props=['C07'], edits=[('src/parser/resource.rs', '''            self.sounds
                .iter()
                .try_fold(String::new(), |acc, i|
                    Ok(format!("{}{}\\n", acc, i.reconstruct()
                        .map_err(|err| ResourceReconstructionError::ResourceItemReconstructionError {
                            source: err,
                            section: ResourceSection::Sounds,
                            item: i.to_owned()
                        })?))
                )?,''', '''            reconstruct_items(&self.sounds, ResourceSection::Sounds)?,'''), ('src/parser/resource.rs', '''#[derive(Error, Debug)]
pub enum ResourceParseError {''', '''fn reconstruct_items(items: &Vec<ResourceItem>, section: ResourceSection) -> Result<String, ResourceReconstructionError> {
    let mut result = String::new();

    for item in items {
        let text = item.reconstruct()
            .map_err(|err| ResourceReconstructionError::ResourceItemReconstructionError {
                source: err,
                section,
                item: item.to_owned()
            })?;
        result.push_str(&text);
        result.push('\\n');
    }

    Ok(result)
}

#[derive(Error, Debug)]
pub enum ResourceParseError {''')]),
 dict(id='r12-library-order', props=['C06'], edits=[('src/parser/library.rs', '''                "@firebaseDB" => library_item_set!(firebase_db, "@firebaseDB"),
                "@compat" => library_item_set!(compat, "@compat"),
                "@admob" => library_item_set!(admob, "@admob"),
''', '''                "@admob" => library_item_set!(admob, "@admob"),
                "@compat" => library_item_set!(compat, "@compat"),
                "@firebaseDB" => library_item_set!(firebase_db, "@firebaseDB"),
''')]),
 dict(id='r13-library-locals', props=['C06'], edits=[('src/parser/library.rs', '''        Ok(format!(
            "@firebaseDB''', '''        let text = format!(
            "@firebaseDB'''), ('src/parser/library.rs', '''                    header: "@googleMap".to_string()
                })?,
        ))
''', '''                    header: "@googleMap".to_string()
                })?,
        );

        Ok(text)
''')]),
 dict(id='r14-view-ifelse', props=['C08','C11'], edits=[('src/parser/view.rs', '''            match layout.reconstruct() {
                Ok(reconstructed_layout) => {
                    result.push_str(format!("@{}.xml\\n", name).as_str());
                    result.push_str(reconstructed_layout.as_str());
                    // a layout ends with a blank line
                    result.push_str("\\n\\n");
                }

                Err(err) => {
                    Err(ViewReconstructionError::LayoutReconstructionError {
                        source: err,
                        screen_name: name.to_owned(),
                        layout: layout.to_owned()
                    })?
                }
            }
''', '''            let reconstructed_layout = layout.reconstruct()
                .map_err(|err| ViewReconstructionError::LayoutReconstructionError {
                    source: err,
                    screen_name: name.to_owned(),
                    layout: layout.to_owned()
                })?;

            result.push_str(&format!("@{}.xml\\n{}\\n\\n", name, reconstructed_layout));
''')]),
 dict(id='r15-view-match', props=['C08'], edits=[('src/parser/view.rs', '''            match AndroidView::parse(line) {
                Ok(view) => result.push(view),
                Err(err) => {
                    Err(LayoutParseError {
                        source: err,
                        view_before: result.last().cloned(),
                        content: line.to_string(),
                        line: count as u32
                    })?
                }
            }
''', '''            let view = AndroidView::parse(line)
                .map_err(|err| LayoutParseError {
                    source: err,
                    view_before: result.last().cloned(),
                    content: line.to_string(),
                    line: count as u32
                })?;

            result.push(view);
''')]),
 dict(id='r16-logic-helper', props=['C09','C11'], edits=[('src/parser/logic.rs', '''                screens
                    .entry(screen_name.to_owned())
                    .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                    .variables = Some(variable_pool);
''', '''                screen_entry(&mut screens, screen_name).variables = Some(variable_pool);
'''), ('src/parser/logic.rs', '''impl Parsable for Logic {
''', '''fn screen_entry(screens: &mut LinkedHashMap<String, ScreenLogic>, screen_name: String) -> &mut ScreenLogic {
    screens
        .entry(screen_name.to_owned())
        .or_insert_with(||ScreenLogic::new_empty(screen_name))
}

impl Parsable for Logic {
''')]),
 dict(id='r17-pool-forloop', props=['C09'], edits=[('src/parser/logic.rs', '''            let mut result = Vec::new();

            // iter until empty string
            for (index, line) in newline_iter
                .by_ref()
                .take_while(|i| *i != "")
                .enumerate() {

                result.push(
                    Event::parse(line)
                        .map_err(|err| EventPoolParseError {
                            content: line.to_string(),
                            count: index as u32,
                            source: err
                        })?
                );
            }

            Ok(EventPool(result))
''', '''            let mut events = Vec::new();
            let lines = newline_iter.by_ref().take_while(|i| !i.is_empty());

            // iter until empty string
            for (index, line) in lines.enumerate() {
                let event = Event::parse(line)
                    .map_err(|err| EventPoolParseError {
                        content: line.to_string(),
                        count: index as u32,
                        source: err
                    })?;

                events.push(event);
            }

            Ok(EventPool(events))
''')]),
 dict(id='r18-parsefrom-locals', props=['C10','C02'], edits=[('src/parser/mod.rs', '''        Ok(SketchwareProject {
            project: project::Project::parse(raw_swproj.project.as_str())
                .map_err(SketchwareProjectParseError::ProjectParseError)?,

            file:''', '''        let project = project::Project::parse(&raw_swproj.project)
            .map_err(SketchwareProjectParseError::ProjectParseError)?;

        Ok(SketchwareProject {
            project,

            file:''')]),
 dict(id='r19-slots-closure', props=['C02'], edits=[('src/parser/mod.rs', '''        Ok(RawSketchwareProject {
            project: decrypt!(project, "project"),
            file: decrypt!(file, "file"),
            library: decrypt!(library, "library"),
            resource: decrypt!(resource, "resource"),
            view: decrypt!(view, "view"),
            logic: decrypt!(logic, "logic"),
            resource_files: None
        })
''', '''        let mut result = RawSketchwareProject::from_encrypted(
            project, file, library, resource, view, logic, Vec::new()
        )?;
        result.resource_files = None;

        Ok(result)
''')]),
 dict(id='r20-crypto-helper', props=['C01','C02'], edits=[('src/lib.rs', '''    let cipher = Aes128Cbc::new_from_slices(KEY.as_ref(), KEY.as_ref())
        .expect("Failed to create the AES key");

    cipher.encrypt_vec(&*data)
''', '''    new_cipher().encrypt_vec(data)
'''), ('src/lib.rs', '''pub fn encrypt_sw(data: &[u8]) -> Vec<u8> {''', '''fn new_cipher() -> Aes128Cbc {
    Aes128Cbc::new_from_slices(KEY.as_ref(), KEY.as_ref())
        .expect("Failed to create the AES key")
}

pub fn encrypt_sw(data: &[u8]) -> Vec<u8> {''')]),
 dict(id='r21-crypto-file', props=['C01'], edits=[('src/lib.rs', '''    let input_plaintext = std::fs::read(file).map_err(CryptoError::IOError)?;
    let output_ciphertext = encrypt_sw(&input_plaintext);

    std::fs::write(output_file, output_ciphertext)
        .map_err(CryptoError::IOError)?;

    Ok(())
''', '''    let output_ciphertext = encrypt_sw_file(file)?;

    std::fs::write(output_file, output_ciphertext)?;

    Ok(())
''')]),
 dict(id='r22-content-helper', props=['C15','C16','C18'], edits=[('src/api/block.rs', '''                's' => Argument::String {
                    name,
                    value: {
                        if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
                        let value = args.remove(0);

                        if value.starts_with("@") {
                            ArgValue::BlockPlaceholder {
                                block_id: (&value[1..]).parse()
                                    .map_err(|_| BlockContentParseError::InvalidBlockId {
                                        value
                                    })?
                            }
                        } else { ArgValue::Value(value) }
                    }
                },
''', '''                's' => Argument::String { name, value: parse_text_arg(&mut args)? },
'''), ('src/api/block.rs', '''impl BlockContent {
    /// Parses a spec without''', '''fn parse_text_arg(args: &mut Vec<String>) -> Result<ArgValue<String>, BlockContentParseError> {
    if args.is_empty() {
        return Err(BlockContentParseError::RanOutOfArgs);
    }

    let value = args.remove(0);

    if value.starts_with("@") {
        let block_id = value[1..].parse()
            .map_err(|_| BlockContentParseError::InvalidBlockId { value })?;

        Ok(ArgValue::BlockPlaceholder { block_id })
    } else {
        Ok(ArgValue::Value(value))
    }
}

impl BlockContent {
    /// Parses a spec without''')]),
 dict(id='r23-content-ifelse', props=['C15'], edits=[('src/api/block.rs', '''            output.push(' ');
        }
        output.pop(); // remove the trailing space
        output
''', '''            output.push_str(" ");
        }

        // remove the trailing space
        output.pop();

        output
''')]),
 dict(id='r24-blocks-locals', props=['C16','C17','C18'], edits=[('src/api/block.rs', '''            loop {
                let next_block = {
                    blocks.get(&current_id)
                        .ok_or_else(|| BlockConversionError::BlockNotFound { id: current_id })?
                        .next_block
                };

                result.push(parse_block(current_id, blocks)?);

                if next_block.is_negative() { break }
                current_id = next_block as u32;
            }
''', '''            loop {
                let next_block = match blocks.get(&current_id) {
                    Some(block) => block.next_block,
                    None => return Err(BlockConversionError::BlockNotFound { id: current_id })
                };

                let block = parse_block(current_id, blocks)?;
                result.push(block);

                if next_block < 0 { break }
                current_id = next_block as u32;
            }
''')]),
 dict(id='r25-substack-helper', props=['C16','C17'], edits=[('src/api/block.rs', '''                    let mut ss2_blocks = ss2.to_block_container(*id_counter + 1);
                    let ss2_first_id = ss2_blocks.0
                        .first()
                        .map(|b| b.id.parse::<i32>().unwrap())
                        .unwrap_or_else(|| -1);
''', '''                    let mut ss2_blocks = ss2.to_block_container(*id_counter + 1);
                    let ss2_first_id = match ss2_blocks.0.first() {
                        Some(b) => b.id.parse::<i32>().unwrap(),
                        None => -1
                    };
''')]),
 dict(id='r26-blocktype-order', props=['C16','C17','C18'], edits=[('src/api/block.rs', '''            "v" => BlockType::Argument(ArgumentBlockReturnType::View { type_name }),
            "p" => BlockType::Argument(ArgumentBlockReturnType::Component { type_name }),
            "b" => BlockType::Argument(ArgumentBlockReturnType::Boolean),
''', '''            "b" => BlockType::Argument(ArgumentBlockReturnType::Boolean),
            "p" => BlockType::Argument(ArgumentBlockReturnType::Component { type_name }),
            "v" => BlockType::Argument(ArgumentBlockReturnType::View { type_name }),
''')]),
 dict(id='r27-component-intermediate', props=['C19','C21','C22'], edits=[('src/api/component.rs', '''            ComponentKind::Intent => ParserComponent::new_empty(id, 1),
            ComponentKind::SharedPreferences { path } => ParserComponent::new_1param(id, path, 2),
''', '''            ComponentKind::SharedPreferences { path } => ParserComponent::new_1param(id, path, 2),
            ComponentKind::Intent => ParserComponent::new(id, "".to_string(), String::new(), "".to_string(), 1),
''')]),
 dict(id='r28-event-iflet', props=['C20'], edits=[('src/api/screen.rs', '''            EventType::ActivityEvent => match self.name.as_str() {
                "onCreate" => format!("{}_initializeLogic", self.name),
                _ => format!("{}_{}", self.name, self.name)
            }
''', '''            EventType::ActivityEvent => {
                if self.name == "onCreate" {
                    "onCreate_initializeLogic".to_string()
                } else {
                    format!("{0}_{0}", self.name)
                }
            }
''')]),
 dict(id='r29-event-struct', props=['C20','C22'], edits=[('src/api/screen.rs', '''        self.event_type.apply_to_parser_event(&mut event);

        (event, self.code)
''', '''        let code = self.code;
        self.event_type.apply_to_parser_event(&mut event);

        (event, code)
''')]),
 dict(id='r30-screen-fab', props=['C21','C22','C26'], edits=[('src/api/mod.rs', '''                // get our fab (if we have one)
                let fab = val.view.fabs
                    .remove(name.as_str())
                    .map(View::from);

''', ''), ('src/api/mod.rs', '''                // get the activity layout and logic
                let layout''', '''                // get our fab (if we have one)
                let fab = val.view.fabs
                    .remove(&name)
                    .map(View::from);

                // get the activity layout and logic
                let layout''')]),
 dict(id='r31-screen-oncreate', props=['C21'], edits=[('src/api/screen.rs', '''            if logic_entry.events.is_none() { logic_entry.events = Some(EventPool::default()) }
            if let Some(events) = &mut logic_entry.events {
                events.0.insert(0, ParserEvent {
                    event_name: "onCreate".to_string(),
                    event_type: 3,
                    target_id: "onCreate".to_string(),
                    target_type: 0
                })
            }
''', '''            let mut events = logic_entry.events.take().unwrap_or_default();
            events.0.insert(0, ParserEvent {
                event_name: "onCreate".to_string(),
                event_type: 3,
                target_id: "onCreate".to_string(),
                target_type: 0
            });
            logic_entry.events = Some(events);
''')]),
 dict(id='r32-names-loop', props=['C26','C22'], edits=[('src/api/mod.rs', '''    let mut capitalize = true;

    format!(
        "{}Activity",
        s.chars()
            .into_iter()
            .filter_map(|ch| {
                Some(if ch == '_' {
                    capitalize = true;
                    return None;
                } else if capitalize {
                    capitalize = false;
                    ch.to_ascii_uppercase()
                } else {
                    ch
                })
            })
            .collect::<String>()
    )
''', '''    let mut capitalize = true;
    let mut result = String::new();

    for ch in s.chars() {
        if ch == '_' {
            capitalize = true;
        } else if capitalize {
            capitalize = false;
            result.push(ch.to_ascii_uppercase());
        } else {
            result.push(ch);
        }
    }

    result.push_str("Activity");
    result
''')]),
 dict(id='r33-registry-order', props=['C23'], edits=[('src/api/mod.rs', '''        if let Some(image) = self.images.remove(id) {
            return Some((image, ResourceType::Image));
        }

        if let Some(sound) = self.sounds.remove(id) {
            return Some((sound, ResourceType::Sound));
        }

        if let Some(font) = self.fonts.remove(id) {
            return Some((font, ResourceType::Font));
        }

        None
''', '''        if let Some(image) = self.images.remove(id) {
            Some((image, ResourceType::Image))
        } else if let Some(sound) = self.sounds.remove(id) {
            Some((sound, ResourceType::Sound))
        } else {
            self.fonts.remove(id).map(|font| (font, ResourceType::Font))
        }
''')]),
 dict(id='r34-resfiles-merge', props=['C24','C10'], edits=[('src/parser/mod.rs', '''        let mut result = Vec::new();

        if let Some(custom_icon) = self.custom_icon {
            result.push(custom_icon);
        }

        result.append(&mut self.images.into_values().collect());
''', '''        let mut result = Vec::new();
        let images = self.images;

        match self.custom_icon {
            Some(custom_icon) => result.push(custom_icon),
            None => {}
        }

        result.extend(images.into_values());
''')]),
 dict(id='r35-color-helper', props=['C25','C03'], edits=[('src/color.rs', '''        Color { value: (0xFFu32 << 24 | (red as u32) << 16 | (green as u32) << 8 | (blue as u32) << 0) as u32 }
''', '''        Color::from_argb(0xFF, red, green, blue)
''')]),
 dict(id='r36-color-hex', props=['C25'], edits=[('src/color.rs', '''        let mut hex = String::new();
        // add the transparency
        if txt.len() == 6 { hex.push_str("ff"); }
        hex.push_str(txt);

        Ok(u32::from_str_radix(&hex, 16)?.into())
''', '''        // add the transparency
        let hex = if txt.len() == 6 { format!("ff{}", txt) } else { txt.to_string() };
        let value = u32::from_str_radix(&hex, 16)?;

        Ok(Color::from(value))
''')]),
 dict(id='r37-date-helper', props=['C04','C11'], edits=[('src/parser/serde_util.rs', '''        let year = v[0..4].parse::<i32>().map_err(D::Error::custom)?;
        let month = v[4..6].parse::<u32>().map_err(D::Error::custom)?;
        let day = v[6..8].parse::<u32>().map_err(D::Error::custom)?;
''', '''        let month = v[4..6].parse::<u32>().map_err(D::Error::custom)?;
        let day = v[6..8].parse::<u32>().map_err(D::Error::custom)?;
        let year: i32 = v[..4].parse().map_err(D::Error::custom)?;
''')]),
 dict(id='r38-tologic-loop', props=['C22'], edits=[('src/api/mod.rs', '''            let parser_events =
                events
                    .into_iter()
                    .filter_map(|event| {
                        let block_container_id = event.get_block_container_id();
                        let (event, blocks) = event.into_parser_event();

                        let block_container = blocks.into();
                        block_containers.insert(block_container_id, block_container);

                        // drop this event if its onCreate, but preserve the block container
                        // see `api::screen::Screen::from_parsed` comments for more explanation
                        if event.event_name == "onCreate" { return None; }

                        Some(event)
                    })
                    .collect::<Vec<_>>();
''', '''            let mut parser_events = Vec::new();

            for event in events {
                let block_container_id = event.get_block_container_id();
                let (event, blocks) = event.into_parser_event();
                block_containers.insert(block_container_id, blocks.into());

                // drop this event if its onCreate, but preserve the block container
                // see `api::screen::Screen::from_parsed` comments for more explanation
                if event.event_name != "onCreate" {
                    parser_events.push(event);
                }
            }
''')]),
 dict(id='r39-library-item-helper', props=['C22'], edits=[('src/api/mod.rs', '''                compat: parser::library::LibraryItem {
                    ad_units: vec![],
                    data: "".to_string(),
                    lib_type: 1,
                    reserved1: "".to_string(),
                    reserved2: "".to_string(),
                    reserved3: "".to_string(),
                    test_devices: vec![],
                    use_yn: if val.libraries.app_compat_enabled { "Y" } else { "N" }.to_string()
                },
''', '''                compat: {
                    let use_yn = if val.libraries.app_compat_enabled { "Y".to_string() } else { "N".to_string() };
                    parser::library::LibraryItem {
                        use_yn,
                        lib_type: 1,
                        ad_units: Vec::new(),
                        data: String::new(),
                        reserved1: String::new(),
                        reserved2: String::new(),
                        reserved3: String::new(),
                        test_devices: Vec::new(),
                    }
                },
''')]),
 dict(id='r40-category-helper', props=['C25','C16'], edits=[('src/api/block.rs', '''        Block {
            sub_stack1: None,
            sub_stack2: None,
            color: category.into(),
            op_code,
            content,
            block_type
        }
''', '''        let color: Color = category.into();

        Block { op_code, color, content, block_type, sub_stack1: None, sub_stack2: None }
''')]),
]
