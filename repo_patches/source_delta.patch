From 1ff81114bf80d82b5c66d4e1a23d5e93884a81de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:30 +0000
Subject: [PATCH 01/19] fix: zero-pad the project date and reject malformed
 dates instead of panicking

---
 src/parser/serde_util.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index d129182..7030e5a 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -3,10 +3,15 @@ pub(crate) mod date_to_timestamp {
     use chrono::{Datelike, NaiveDate, NaiveDateTime, Timelike};
     use serde::{de, Deserialize, Serializer};
     use serde::de::Error;
+    use serde::ser::Error as _;
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<u64, D::Error> where D: de::Deserializer<'de> {
         let v = String::deserialize(deserializer)?;
 
+        if v.len() < 14 || !v.is_ascii() {
+            return Err(D::Error::custom("a date formatted as yyyyMMddHHmmss"));
+        }
+
         let year = v[0..4].parse::<i32>().map_err(D::Error::custom)?;
         let month = v[4..6].parse::<u32>().map_err(D::Error::custom)?;
         let day = v[6..8].parse::<u32>().map_err(D::Error::custom)?;
@@ -15,16 +20,20 @@ pub(crate) mod date_to_timestamp {
         let second = v[12..14].parse::<u32>().map_err(D::Error::custom)?;
 
         Ok(
-            NaiveDate::from_ymd(year, month, day)
-                .and_hms(hour, minute, second)
+            NaiveDate::from_ymd_opt(year, month, day)
+                .and_then(|date| date.and_hms_opt(hour, minute, second))
+                .ok_or_else(|| D::Error::custom("a valid date"))?
                 .timestamp() as u64
         )
     }
 
     pub fn serialize<S>(timestamp: &u64, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer {
-        let date = NaiveDateTime::from_timestamp(*timestamp as i64, 0);
+        let date = NaiveDateTime::from_timestamp_opt(*timestamp as i64, 0)
+            .filter(|date| (0..=9999).contains(&date.year()))
+            .ok_or_else(|| S::Error::custom("timestamp is out of range"))?;
+
         let date_str = format!(
-            "{}{}{}{}{}{}",
+            "{:04}{:02}{:02}{:02}{:02}{:02}",
             date.year(),
             date.month(),
             date.day(),
-- 
2.43.0


From cbceaa8f301726d0454a2312d460972ad936a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 02/19] fix: don't stop parsing the file data at the blank line
 of an empty section

---
 src/parser/file.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/file.rs b/src/parser/file.rs
index 182c267..ad3530f 100644
--- a/src/parser/file.rs
+++ b/src/parser/file.rs
@@ -37,10 +37,8 @@ impl Parsable for File {
             } else if line == "@customview" {
                 cur_section = FileSection::CustomView;
 
-            } else if cur_section != FileSection::None {
+            } else if cur_section != FileSection::None && !line.is_empty() {
                 // parse the file item if the line isn't empty
-                if line.is_empty() { break; }
-
                 let file_item = FileItem::parse(line)
                     .map_err(|err| FileParseError::FileItemParseError {
                         source: err,
-- 
2.43.0


From c74c446c1298d249ca5607d699b1f090ec568223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 03/19] fix: separate layouts with a blank line and don't stop
 parsing the view data there

---
 src/parser/view.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 57ee884..3981cd8 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -25,6 +25,8 @@ impl Parsable for View {
         let mut fabs = LinkedHashMap::<String, AndroidView>::new();
 
         while let Some(line) = lines.next() {
+            // sections are separated with blank lines
+            if line.is_empty() { continue; }
             if !line.starts_with("@") { break; }
 
             let (screen_name, container_type) =
@@ -75,7 +77,8 @@ impl Parsable for View {
                 Ok(reconstructed_layout) => {
                     result.push_str(format!("@{}.xml\n", name).as_str());
                     result.push_str(reconstructed_layout.as_str());
-                    result.push('\n');
+                    // a layout ends with a blank line
+                    result.push_str("\n\n");
                 }
 
                 Err(err) => {
@@ -88,9 +91,6 @@ impl Parsable for View {
             }
         }
 
-        // separate between the fabs and layouts
-        result.push('\n');
-
         for (name, view) in &self.fabs {
             match view.reconstruct() {
                 Ok(reconstructed_view) => {
-- 
2.43.0


From 016173957e7772820fd2666507c5a853992c32c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:34 +0000
Subject: [PATCH 04/19] fix: don't write a blank section for screens without
 block containers

---
 src/parser/logic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 6eb01ac..63292cc 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -233,7 +233,8 @@ impl Parsable for Logic {
                 result.push('\n');
             }
 
-            block_containers.push(result);
+            // an empty section would end up as extra blank lines, which stops the parser
+            if !result.is_empty() { block_containers.push(result); }
         }
 
         // stitch them together and boom!
-- 
2.43.0


From ec461b21b5bc82d9c829f9e9f91d31723ce2f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 05/19] fix: don't panic on a pool header without a screen name

---
 src/parser/logic.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 63292cc..b3fadb3 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -36,10 +36,10 @@ impl Parsable for Logic {
                 break;
             }
 
-            if line.ends_with("java_var") {
+            if let Some(screen_name) = line[1..].strip_suffix(".java_var") {
                 // variable pool
                 // read the screen name
-                let screen_name = (&line[1..line.len() - 9]).to_string(); // 8 (length of "java_var") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // parse variables
                 let variable_pool = variable::VariablePool::parse_iter(&mut lines)
@@ -54,10 +54,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .variables = Some(variable_pool);
 
-            } else if line.ends_with("java_list") {
+            } else if let Some(screen_name) = line[1..].strip_suffix(".java_list") {
                 // list variable pool
                 // get the screen name
-                let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 -> length of "java_list" + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let list_variable_pool = list_variable::ListVariablePool::parse_iter(&mut lines)
@@ -73,10 +73,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .list_variables = Some(list_variable_pool);
 
-            } else if line.ends_with("java_components") {
+            } else if let Some(screen_name) = line[1..].strip_suffix(".java_components") {
                 // component pool
                 // get screen name
-                let screen_name = (&line[1..line.len() - 16]).to_string(); // 15 (length of "java_components") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let component_pool = component::ComponentPool::parse_iter(&mut lines)
@@ -92,10 +92,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .components = Some(component_pool);
 
-            } else if line.ends_with("java_events") {
+            } else if let Some(screen_name) = line[1..].strip_suffix(".java_events") {
                 // event pool
                 // get the screen name from the header
-                let screen_name = (&line[1..line.len() - 12]).to_string(); // 11 (length of "java_events") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let event_pool = event::EventPool::parse_iter(&mut lines)
@@ -111,9 +111,9 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .events = Some(event_pool);
 
-            } else if line.ends_with("java_func") {
+            } else if let Some(screen_name) = line[1..].strip_suffix(".java_func") {
                 // moreblocks pool
-                let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 (length of "java_func") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let more_block_pool = more_block::MoreBlockPool::parse_iter(&mut lines)
-- 
2.43.0


From 141e29ad3d5055a52717f367db3c8d6910121cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:36 +0000
Subject: [PATCH 06/19] fix: point substacks to their first block instead of
 their last

---
 src/api/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 3f7089a..67b118b 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -181,6 +181,10 @@ impl Blocks {
             let sub_stack1_id = block.sub_stack1
                 .map(|ss1| {
                     let mut ss1_blocks = ss1.to_block_container(*id_counter + 1);
+                    let ss1_first_id = ss1_blocks.0
+                        .first()
+                        .map(|b| b.id.parse::<i32>().unwrap())
+                        .unwrap_or_else(|| -1);
                     let ss1_last_id = ss1_blocks.0
                         .last()
                         .map(|b| b.id.parse::<i32>().unwrap())
@@ -189,12 +193,16 @@ impl Blocks {
                     sub_stack_blocks.append(&mut ss1_blocks.0);
 
                     if ss1_last_id != -1 { *id_counter = ss1_last_id as u32; }
-                    ss1_last_id
+                    ss1_first_id
                 }).unwrap_or_else(|| -1);
 
             let sub_stack2_id = block.sub_stack2
                 .map(|ss2| {
                     let mut ss2_blocks = ss2.to_block_container(*id_counter + 1);
+                    let ss2_first_id = ss2_blocks.0
+                        .first()
+                        .map(|b| b.id.parse::<i32>().unwrap())
+                        .unwrap_or_else(|| -1);
                     let ss2_last_id = ss2_blocks.0
                         .last()
                         .map(|b| b.id.parse::<i32>().unwrap())
@@ -203,7 +211,7 @@ impl Blocks {
                     sub_stack_blocks.append(&mut ss2_blocks.0);
 
                     if ss2_last_id != -1 { *id_counter = ss2_last_id as u32; }
-                    ss2_last_id
+                    ss2_first_id
                 }).unwrap_or_else(|| -1);
 
             /////////
-- 
2.43.0


From 4fa4d8e60b545f57d0393388c224744b533021a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:37 +0000
Subject: [PATCH 07/19] fix: reference block arguments with their own id
 instead of the last id used inside them

---
 src/api/block.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 67b118b..1aabbc8 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -257,8 +257,9 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val,
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id =
+                                    convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -270,8 +271,9 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id =
+                                    convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -291,12 +293,14 @@ impl Blocks {
                                     BlockType::Argument(ArgumentBlockReturnType::Boolean)
                                 );
 
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id =
+                                    convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             },
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id =
+                                    convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -308,8 +312,9 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id =
+                                    convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
-- 
2.43.0


From d82324756bf2cf409ec3f9ece2c482a11ed98eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 08/19] fix: keep the type name of list blocks so they can be
 parsed again

---
 src/api/block.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/api/block.rs b/src/api/block.rs
index 1aabbc8..6fda96b 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -518,6 +518,11 @@ impl BlockType {
                 Some(type_name.to_string()),
             BlockType::Argument(ArgumentBlockReturnType::Component { type_name }) =>
                 Some(type_name.to_string()),
+            BlockType::Argument(ArgumentBlockReturnType::List { inner_type }) =>
+                Some(match inner_type {
+                    ListItem::String => "List String",
+                    ListItem::Number => "List Number",
+                }.to_string()),
             _ => None
         }
     }
-- 
2.43.0


From 04dcfd99067561f524682895526e49a101ef3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:39 +0000
Subject: [PATCH 09/19] fix: resolve block references in menu arguments

---
 src/api/block.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 6fda96b..c4ed8c8 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -732,9 +732,16 @@ impl BlockContent {
                     name: name.unwrap(),
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
-                        ArgValue::Value(
-                            args.remove(0)
-                        )
+                        let value = args.remove(0);
+
+                        if value.starts_with("@") {
+                            ArgValue::BlockPlaceholder {
+                                block_id: (&value[1..]).parse()
+                                    .map_err(|_| BlockContentParseError::InvalidBlockId {
+                                        value
+                                    })?
+                            }
+                        } else { ArgValue::Value(value) }
                     }
                 },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
-- 
2.43.0


From e93f340afe7779f3d1fe8675de85ffc5bf267eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 10/19] fix: don't panic on malformed block specs and accept
 the modulo sign as a text

---
 src/api/block.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index c4ed8c8..1c8d4be 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -620,7 +620,8 @@ impl BlockContent {
     pub fn parse_wo_params(spec: &str) -> Result<Self, BlockContentParseError> {
         let mut items = Vec::new();
         for s in spec.split(" ") {
-            if !s.starts_with("%") {
+            // a lone percent sign is a text, for example the modulo block: %d % %d
+            if !s.starts_with("%") || s == "%" {
                 items.push(SpecItem::Text(s.to_string()));
                 continue
             }
@@ -630,13 +631,19 @@ impl BlockContent {
             let has_name = s.chars().nth(2)
                 .map(|c| c == '.' && s.len() > 3)
                 .unwrap_or(false);
-            let name = has_name.then(|| (&s[3..]).to_string());
+            let name = has_name.then(|| s.chars().skip(3).collect::<String>());
 
             let arg = match &s.chars().nth(1).unwrap() {
                 's' => Argument::String { name, value: ArgValue::Empty },
                 'b' => Argument::Boolean { name, value: ArgValue::Empty },
                 'd' => Argument::Number { name, value: ArgValue::Empty },
-                'm' => Argument::Menu { name: name.unwrap(), value: ArgValue::Empty },
+                'm' => Argument::Menu {
+                    name: name.ok_or_else(|| BlockContentParseError::UnknownSpecParam {
+                        name: "m".to_string(),
+                        full: s.to_string()
+                    })?,
+                    value: ArgValue::Empty
+                },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
                     name: s.chars().nth(1).unwrap().to_string(),
                     full: s.to_string()
@@ -653,7 +660,8 @@ impl BlockContent {
     pub fn parse(spec: String, mut args: Vec<String>) -> Result<Self, BlockContentParseError> {
         let mut items = Vec::new();
         for s in spec.split(" ") {
-            if !s.starts_with("%") {
+            // a lone percent sign is a text, for example the modulo block: %d % %d
+            if !s.starts_with("%") || s == "%" {
                 items.push(SpecItem::Text(s.to_string()));
                 continue
             }
@@ -663,7 +671,7 @@ impl BlockContent {
             let has_name = s.chars().nth(2)
                 .map(|c| c == '.' && s.len() > 3)
                 .unwrap_or(false);
-            let name = has_name.then(|| (&s[3..]).to_string());
+            let name = has_name.then(|| s.chars().skip(3).collect::<String>());
 
             let arg = match &s.chars().nth(1).unwrap() {
                 's' => Argument::String {
@@ -729,7 +737,10 @@ impl BlockContent {
                     }
                 },
                 'm' => Argument::Menu {
-                    name: name.unwrap(),
+                    name: name.ok_or_else(|| BlockContentParseError::UnknownSpecParam {
+                        name: "m".to_string(),
+                        full: s.to_string()
+                    })?,
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
                         let value = args.remove(0);
-- 
2.43.0


From 3a814c709ab487bf8ae055a1ce64f40499271641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 11/19] fix: parse blank number and boolean arguments as empty
 instead of failing

---
 src/api/block.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/api/block.rs b/src/api/block.rs
index 1c8d4be..95a2afa 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -703,6 +703,8 @@ impl BlockContent {
                                         value
                                     })?
                             }
+                        } else if value.is_empty() {
+                            ArgValue::Empty
                         } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
@@ -726,6 +728,8 @@ impl BlockContent {
                                         value
                                     })?
                             }
+                        } else if value.is_empty() {
+                            ArgValue::Empty
                         } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidNumberArgument {
@@ -805,6 +809,8 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
+                                } else if value.is_empty() {
+                                    ArgValue::Empty
                                 } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidNumberArgument {
@@ -830,6 +836,8 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
+                                } else if value.is_empty() {
+                                    ArgValue::Empty
                                 } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
-- 
2.43.0


From 314f0c983d68fcff12720ba54beea430e0703207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:57 +0000
Subject: [PATCH 12/19] fix: make get_type_id agree with the type ids from_view
 reads

---
 src/api/view.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/api/view.rs b/src/api/view.rs
index 1b26de5..af35ca1 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -324,6 +324,7 @@ impl ViewType {
     pub fn get_type_id(&self) -> u8 {
         match self {
             ViewType::LinearLayout { .. }   => 0,
+            ViewType::ScrollView { orientation: Orientation::Vertical, .. } => 12,
             ViewType::ScrollView { .. }     => 2,
             ViewType::Button { .. }         => 3,
             ViewType::TextView { .. }       => 4,
@@ -334,12 +335,12 @@ impl ViewType {
             ViewType::ListView { .. }       => 9,
             ViewType::Spinner { .. }        => 10,
             ViewType::CheckBox { .. }       => 11,
-            ViewType::Switch { .. }         => 12,
-            ViewType::SeekBar { .. }        => 13,
-            ViewType::CalendarView { .. }   => 14,
-            ViewType::Fab { .. }            => 15,
-            ViewType::AdView { .. }         => 16,
-            ViewType::MapView               => 17,
+            ViewType::Switch { .. }         => 13,
+            ViewType::SeekBar { .. }        => 14,
+            ViewType::CalendarView { .. }   => 15,
+            ViewType::Fab { .. }            => 16,
+            ViewType::AdView { .. }         => 17,
+            ViewType::MapView               => 18,
         }
     }
 
-- 
2.43.0


From 9494a573f4c48465b98cee0750e098e41c217311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:58 +0000
Subject: [PATCH 13/19] fix: write the type of the view field into the
 flattened view

---
 src/api/view.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/view.rs b/src/api/view.rs
index af35ca1..2855074 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -547,6 +547,8 @@ pub fn flatten_views(views: Vec<View>, parent_id: Option<String>, parent_type: O
             result_view.r#type
         };
 
+        result_view.r#type = view_type_id;
+
         // and then just map the variables
         result_view.layout.height = view.height;
         result_view.layout.width = view.width;
-- 
2.43.0


From d8b92ffc9ae0efe0605264e3c8ab374dc9e16a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 14/19] fix: don't overwrite the raw layout orientation of
 scroll views

---
 src/api/view.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/view.rs b/src/api/view.rs
index 2855074..edcb6a5 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -352,8 +352,8 @@ impl ViewType {
                 view.layout.gravity = gravity;
             }
 
-            ViewType::ScrollView { orientation, gravity } => {
-                view.layout.orientation = orientation;
+            // the orientation of a scroll view is stored in its type id
+            ViewType::ScrollView { orientation: _, gravity } => {
                 view.layout.gravity = gravity;
             }
 
-- 
2.43.0


From 0c8a3e927687527983fde2b4abe58c5f6250b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:00 +0000
Subject: [PATCH 15/19] fix: keep the resource files of projects that have them
 when saving

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 20d8268..dc604b4 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -763,7 +763,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                 fabs
             },
             logic: parser::logic::Logic { screens: logic_screens },
-            resource_files: val.automatic_res_file_ids.then(|| ResourceFiles {
+            resource_files: (!val.automatic_res_file_ids).then(|| ResourceFiles {
                 custom_icon: val.custom_icon,
                 images: image_resource_files,
                 sounds: sound_resource_files,
-- 
2.43.0


From b4a55d0e3fc36e7b6372654df9094cd88c57a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:01 +0000
Subject: [PATCH 16/19] fix: reject a taken resource id for sounds and fonts
 too

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index dc604b4..87a477c 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -205,7 +205,7 @@ impl Resources {
         }
 
         // check if there is already a resource file with this id
-        if self.images.contains_key(&id) {
+        if self.get_resource(&id).is_some() {
             return Err(ResourceAdditionError::IdTaken { id });
         }
 
-- 
2.43.0


From ee59424b1ed5b3a761e43ad6db19ec229ef56d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:02 +0000
Subject: [PATCH 17/19] fix: give screens without logic the java name they are
 looked up with

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 87a477c..b6cd7ae 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -353,7 +353,7 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
                 // if it can't find any logic then create an empty ScreenLogic
                 let logic = val.logic.screens
                     .remove(view_name_to_logic(name.as_str()).as_str())
-                    .unwrap_or_else(||ScreenLogic::new_empty(file_entry.filename.clone()));
+                    .unwrap_or_else(||ScreenLogic::new_empty(view_name_to_logic(name.as_str())));
 
                 // get our fab (if we have one)
                 let fab = val.view.fabs
-- 
2.43.0


From 8395959f8a9f920f116e82b9744fe9c1bcd609df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:03 +0000
Subject: [PATCH 18/19] fix: write the target id of activity events

---
 src/api/screen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/screen.rs b/src/api/screen.rs
index f40a854..3d5b437 100644
--- a/src/api/screen.rs
+++ b/src/api/screen.rs
@@ -166,7 +166,10 @@ impl EventType {
                 event.target_type = component_type;
             }
 
-            EventType::ActivityEvent => event.event_type = 3
+            EventType::ActivityEvent => {
+                event.event_type = 3;
+                event.target_id = event.event_name.clone();
+            }
         }
     }
 }
-- 
2.43.0


From deebde7e62e3ffe18330555f99b88cace3a50d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:46 +0000
Subject: [PATCH 19/19] fix: only accept dates made of fourteen digits

---
 src/parser/serde_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index 7030e5a..80d5be8 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -8,7 +8,7 @@ pub(crate) mod date_to_timestamp {
     pub fn deserialize<'de, D>(deserializer: D) -> Result<u64, D::Error> where D: de::Deserializer<'de> {
         let v = String::deserialize(deserializer)?;
 
-        if v.len() < 14 || !v.is_ascii() {
+        if v.len() != 14 || !v.bytes().all(|b| b.is_ascii_digit()) {
             return Err(D::Error::custom("a date formatted as yyyyMMddHHmmss"));
         }
 
-- 
2.43.0

