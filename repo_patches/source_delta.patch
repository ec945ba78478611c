From e8a2a1ac930e9041175585d495ebac7f3bf8445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:03 +0000
Subject: [PATCH 01/37] fix: zero-pad the fields of the project creation date

Dates with a month, day, hour, minute or second below 10 were written with
missing digits and could not be read back.
---
 src/parser/serde_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index d129182..b10e4a2 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -24,7 +24,7 @@ pub(crate) mod date_to_timestamp {
     pub fn serialize<S>(timestamp: &u64, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer {
         let date = NaiveDateTime::from_timestamp(*timestamp as i64, 0);
         let date_str = format!(
-            "{}{}{}{}{}{}",
+            "{:04}{:02}{:02}{:02}{:02}{:02}",
             date.year(),
             date.month(),
             date.day(),
-- 
2.43.0


From 85327c755229cf8b8826e49206da7b7840bd9d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:30 +0000
Subject: [PATCH 02/37] fix: report malformed project dates as errors

A date that is too short, contains anything but digits or does not exist in the
calendar made the parser panic.
---
 src/parser/serde_util.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index b10e4a2..133d083 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -7,6 +7,11 @@ pub(crate) mod date_to_timestamp {
     pub fn deserialize<'de, D>(deserializer: D) -> Result<u64, D::Error> where D: de::Deserializer<'de> {
         let v = String::deserialize(deserializer)?;
 
+        // yyyyMMddHHmmss
+        if v.len() != 14 || !v.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(D::Error::custom("expected a date in the form of yyyyMMddHHmmss"));
+        }
+
         let year = v[0..4].parse::<i32>().map_err(D::Error::custom)?;
         let month = v[4..6].parse::<u32>().map_err(D::Error::custom)?;
         let day = v[6..8].parse::<u32>().map_err(D::Error::custom)?;
@@ -15,8 +20,9 @@ pub(crate) mod date_to_timestamp {
         let second = v[12..14].parse::<u32>().map_err(D::Error::custom)?;
 
         Ok(
-            NaiveDate::from_ymd(year, month, day)
-                .and_hms(hour, minute, second)
+            NaiveDate::from_ymd_opt(year, month, day)
+                .and_then(|date| date.and_hms_opt(hour, minute, second))
+                .ok_or_else(|| D::Error::custom("not a valid date"))?
                 .timestamp() as u64
         )
     }
-- 
2.43.0


From 2f0c57366acbf28483185bab1e59bf09cf1fa495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:32 +0000
Subject: [PATCH 03/37] fix: report a creation date out of range as an error
 when writing a project

Timestamps outside of what chrono can represent made reconstruct panic, and years
with more than four digits were written in a form that cannot be read back.
---
 src/parser/serde_util.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index 133d083..dc5c4f5 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -28,7 +28,9 @@ pub(crate) mod date_to_timestamp {
     }
 
     pub fn serialize<S>(timestamp: &u64, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer {
-        let date = NaiveDateTime::from_timestamp(*timestamp as i64, 0);
+        let date = NaiveDateTime::from_timestamp_opt(*timestamp as i64, 0)
+            .filter(|date| (0..=9999).contains(&date.year()))
+            .ok_or_else(|| <S::Error as serde::ser::Error>::custom("date out of range"))?;
         let date_str = format!(
             "{:04}{:02}{:02}{:02}{:02}{:02}",
             date.year(),
-- 
2.43.0


From 08b0550db7b6e837fcc0328e65d29e3ccb279542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:34 +0000
Subject: [PATCH 04/37] fix: do not slice logic section headers blindly

Headers such as "@java_var" made Logic::parse panic, and a container whose name
merely ends in e.g. "java_var" was taken for a variable section.
---
 src/parser/logic.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 6eb01ac..440ee89 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -36,10 +36,10 @@ impl Parsable for Logic {
                 break;
             }
 
-            if line.ends_with("java_var") {
+            if let Some(screen_name) = line[1..].strip_suffix(".java_var") {
                 // variable pool
                 // read the screen name
-                let screen_name = (&line[1..line.len() - 9]).to_string(); // 8 (length of "java_var") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // parse variables
                 let variable_pool = variable::VariablePool::parse_iter(&mut lines)
@@ -54,10 +54,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .variables = Some(variable_pool);
 
-            } else if line.ends_with("java_list") {
+            } else if let Some(screen_name) = line[1..].strip_suffix(".java_list") {
                 // list variable pool
                 // get the screen name
-                let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 -> length of "java_list" + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let list_variable_pool = list_variable::ListVariablePool::parse_iter(&mut lines)
@@ -73,10 +73,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .list_variables = Some(list_variable_pool);
 
-            } else if line.ends_with("java_components") {
+            } else if let Some(screen_name) = line[1..].strip_suffix(".java_components") {
                 // component pool
                 // get screen name
-                let screen_name = (&line[1..line.len() - 16]).to_string(); // 15 (length of "java_components") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let component_pool = component::ComponentPool::parse_iter(&mut lines)
@@ -92,10 +92,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .components = Some(component_pool);
 
-            } else if line.ends_with("java_events") {
+            } else if let Some(screen_name) = line[1..].strip_suffix(".java_events") {
                 // event pool
                 // get the screen name from the header
-                let screen_name = (&line[1..line.len() - 12]).to_string(); // 11 (length of "java_events") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let event_pool = event::EventPool::parse_iter(&mut lines)
@@ -111,9 +111,9 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .events = Some(event_pool);
 
-            } else if line.ends_with("java_func") {
+            } else if let Some(screen_name) = line[1..].strip_suffix(".java_func") {
                 // moreblocks pool
-                let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 (length of "java_func") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let more_block_pool = more_block::MoreBlockPool::parse_iter(&mut lines)
-- 
2.43.0


From bf663635e68a9deb94adb518e2e4a8861de3009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:47 +0000
Subject: [PATCH 05/37] fix: do not write an empty section for screens without
 block containers

The additional blank lines made Logic::parse stop there and lose every block
container after them.
---
 src/parser/logic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 440ee89..bed0fe0 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -233,7 +233,7 @@ impl Parsable for Logic {
                 result.push('\n');
             }
 
-            block_containers.push(result);
+            if !result.is_empty() { block_containers.push(result); }
         }
 
         // stitch them together and boom!
-- 
2.43.0


From ff3dbb5d7239c0094ec7d6928747b4641e598a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:59 +0000
Subject: [PATCH 06/37] fix: keep trailing whitespace of names and specs when
 writing logic

Trimming whole pools removed whitespace that belongs to the last variable, list
variable or more-block of a section; only the separating newlines may go.
---
 src/parser/logic.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index bed0fe0..eaf5db6 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -244,8 +244,8 @@ impl Parsable for Logic {
             .chain(event_containers)
             .chain(more_block_containers)
             .chain(block_containers)
-            .fold(String::new(), |acc, i| format!("{}\n\n{}", acc, i.trim()))
-            .trim()
+            .fold(String::new(), |acc, i| format!("{}\n\n{}", acc, i.trim_matches('\n')))
+            .trim_matches('\n')
             .to_string()
         )
     }
@@ -392,7 +392,7 @@ pub mod variable {
                 .fold(String::new(), |acc, i|
                     format!("{}\n{}", acc, i.reconstruct().unwrap() /* this never fails */ )
                 )
-                .trim()
+                .trim_matches('\n')
                 .to_string())
         }
     }
@@ -549,7 +549,7 @@ pub mod list_variable {
                 .fold(String::new(), |acc, i|
                     format!("{}\n{}", acc, i.reconstruct().unwrap() /* this never fails */ )
                 )
-                .trim()
+                .trim_matches('\n')
                 .to_string())
         }
     }
@@ -815,7 +815,7 @@ pub mod more_block {
                 .try_fold(String::new(), |ac, i| {
                     Ok(format!("{}\n{}", ac, i.reconstruct().unwrap() /* this will never error */))
                 })?
-                .trim()
+                .trim_matches('\n')
                 .to_string())
         }
     }
-- 
2.43.0


From 18b05d55a31ae186bcaab3d3e0c45e67cf3bdf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:01 +0000
Subject: [PATCH 07/37] fix: separate every layout by a blank line when writing
 views

Views with more than one layout could not be read back, and floating action
buttons were lost if there were no layouts or the last layout was empty.
---
 src/parser/view.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 57ee884..977b1f0 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -75,6 +75,9 @@ impl Parsable for View {
                 Ok(reconstructed_layout) => {
                     result.push_str(format!("@{}.xml\n", name).as_str());
                     result.push_str(reconstructed_layout.as_str());
+                    if !layout.0.is_empty() { result.push('\n'); }
+
+                    // a blank line ends the layout
                     result.push('\n');
                 }
 
@@ -88,9 +91,6 @@ impl Parsable for View {
             }
         }
 
-        // separate between the fabs and layouts
-        result.push('\n');
-
         for (name, view) in &self.fabs {
             match view.reconstruct() {
                 Ok(reconstructed_view) => {
-- 
2.43.0


From 96650e4ba5731c720001a10dfa3e89aec3f87814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:13 +0000
Subject: [PATCH 08/37] fix: keep the custom views of a file list without
 activities

An empty activity section was written as a blank line, at which the parser stops.
---
 src/parser/file.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/file.rs b/src/parser/file.rs
index 182c267..e80d065 100644
--- a/src/parser/file.rs
+++ b/src/parser/file.rs
@@ -65,7 +65,7 @@ impl Parsable for File {
 
     fn reconstruct(&self) -> Result<String, Self::ReconstructionError> {
         Ok(format!(
-            "@activity\n{}\n@customview\n{}",
+            "@activity{}\n@customview\n{}",
             self.activities
                 .iter()
                 .try_fold(String::new(), |acc, i| {
@@ -74,8 +74,7 @@ impl Parsable for File {
                             source: err,
                             item: i.to_owned()
                         })?))
-                })?
-                .trim(),
+                })?,
 
             self.custom_views
                 .iter()
-- 
2.43.0


From 99d7db6cd6e666f3b90baa25cedff61d16282c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 09/37] fix: report malformed block spec parameters as errors

A lone "%", a menu parameter without a name and parameters with a multi-byte
character after the "%" made the spec parsers panic.
---
 src/api/block.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 3f7089a..8fd2116 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -612,15 +612,21 @@ impl BlockContent {
             let has_name = s.chars().nth(2)
                 .map(|c| c == '.' && s.len() > 3)
                 .unwrap_or(false);
-            let name = has_name.then(|| (&s[3..]).to_string());
+            let name = s.get(3..).filter(|_| has_name).map(|name| name.to_string());
 
-            let arg = match &s.chars().nth(1).unwrap() {
+            let arg = match &s.chars().nth(1).unwrap_or_default() {
                 's' => Argument::String { name, value: ArgValue::Empty },
                 'b' => Argument::Boolean { name, value: ArgValue::Empty },
                 'd' => Argument::Number { name, value: ArgValue::Empty },
-                'm' => Argument::Menu { name: name.unwrap(), value: ArgValue::Empty },
+                'm' => Argument::Menu {
+                    name: name.ok_or_else(|| BlockContentParseError::UnknownSpecParam {
+                        name: "m".to_string(),
+                        full: s.to_string()
+                    })?,
+                    value: ArgValue::Empty
+                },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
-                    name: s.chars().nth(1).unwrap().to_string(),
+                    name: s.chars().skip(1).take(1).collect(),
                     full: s.to_string()
                 })?
             };
@@ -645,9 +651,9 @@ impl BlockContent {
             let has_name = s.chars().nth(2)
                 .map(|c| c == '.' && s.len() > 3)
                 .unwrap_or(false);
-            let name = has_name.then(|| (&s[3..]).to_string());
+            let name = s.get(3..).filter(|_| has_name).map(|name| name.to_string());
 
-            let arg = match &s.chars().nth(1).unwrap() {
+            let arg = match &s.chars().nth(1).unwrap_or_default() {
                 's' => Argument::String {
                     name,
                     value: {
@@ -711,7 +717,10 @@ impl BlockContent {
                     }
                 },
                 'm' => Argument::Menu {
-                    name: name.unwrap(),
+                    name: name.ok_or_else(|| BlockContentParseError::UnknownSpecParam {
+                        name: "m".to_string(),
+                        full: s.to_string()
+                    })?,
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
                         ArgValue::Value(
@@ -720,7 +729,7 @@ impl BlockContent {
                     }
                 },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
-                    name: s.chars().nth(1).unwrap().to_string(),
+                    name: s.chars().skip(1).take(1).collect(),
                     full: s.to_string()
                 })?
             };
-- 
2.43.0


From adb05eb5aa0a8471ad2c5419d12c8ee27032ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:14 +0000
Subject: [PATCH 10/37] fix: point nested stacks at their first block

sub_stack1 and sub_stack2 were written as the id of the last block of the nested
stack, so every block before it was lost.
---
 src/api/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 8fd2116..56c555e 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -181,6 +181,10 @@ impl Blocks {
             let sub_stack1_id = block.sub_stack1
                 .map(|ss1| {
                     let mut ss1_blocks = ss1.to_block_container(*id_counter + 1);
+                    let ss1_first_id = ss1_blocks.0
+                        .first()
+                        .map(|b| b.id.parse::<i32>().unwrap())
+                        .unwrap_or_else(|| -1);
                     let ss1_last_id = ss1_blocks.0
                         .last()
                         .map(|b| b.id.parse::<i32>().unwrap())
@@ -189,12 +193,16 @@ impl Blocks {
                     sub_stack_blocks.append(&mut ss1_blocks.0);
 
                     if ss1_last_id != -1 { *id_counter = ss1_last_id as u32; }
-                    ss1_last_id
+                    ss1_first_id
                 }).unwrap_or_else(|| -1);
 
             let sub_stack2_id = block.sub_stack2
                 .map(|ss2| {
                     let mut ss2_blocks = ss2.to_block_container(*id_counter + 1);
+                    let ss2_first_id = ss2_blocks.0
+                        .first()
+                        .map(|b| b.id.parse::<i32>().unwrap())
+                        .unwrap_or_else(|| -1);
                     let ss2_last_id = ss2_blocks.0
                         .last()
                         .map(|b| b.id.parse::<i32>().unwrap())
@@ -203,7 +211,7 @@ impl Blocks {
                     sub_stack_blocks.append(&mut ss2_blocks.0);
 
                     if ss2_last_id != -1 { *id_counter = ss2_last_id as u32; }
-                    ss2_last_id
+                    ss2_first_id
                 }).unwrap_or_else(|| -1);
 
             /////////
-- 
2.43.0


From a687925f49f92113bc6a6d8dee1040e2d2bdd7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:15 +0000
Subject: [PATCH 11/37] fix: reference argument blocks by their own id

An argument block which itself has block arguments was referenced by the id of
the last block nested in it.
---
 src/api/block.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 56c555e..cef874b 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -257,8 +257,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val,
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -270,8 +270,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -291,12 +291,12 @@ impl Blocks {
                                     BlockType::Argument(ArgumentBlockReturnType::Boolean)
                                 );
 
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             },
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -308,8 +308,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
-- 
2.43.0


From f377b87d071e5a2b2840641e4fe9e89766349818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:31 +0000
Subject: [PATCH 12/37] fix: write the type name of list blocks

Without it a list block could not be read back.
---
 src/api/block.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/block.rs b/src/api/block.rs
index cef874b..6ac4b83 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -513,6 +513,10 @@ impl BlockType {
                 Some(type_name.to_string()),
             BlockType::Argument(ArgumentBlockReturnType::Component { type_name }) =>
                 Some(type_name.to_string()),
+            BlockType::Argument(ArgumentBlockReturnType::List { inner_type: ListItem::String }) =>
+                Some("List String".to_string()),
+            BlockType::Argument(ArgumentBlockReturnType::List { inner_type: ListItem::Number }) =>
+                Some("List Number".to_string()),
             _ => None
         }
     }
-- 
2.43.0


From 74a2f26ce4a6b4053f2bb89389856be58da8ac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:33 +0000
Subject: [PATCH 13/37] fix: recognise block references in menu arguments while
 parsing a spec

BlockContent::parse kept "@id" of a menu as a literal, unlike apply_args and
apply_blocks, and the referenced block got lost.
---
 src/api/block.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 6ac4b83..a2258c8 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -735,9 +735,16 @@ impl BlockContent {
                     })?,
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
-                        ArgValue::Value(
-                            args.remove(0)
-                        )
+                        let value = args.remove(0);
+
+                        if value.starts_with("@") {
+                            ArgValue::BlockPlaceholder {
+                                block_id: (&value[1..]).parse()
+                                    .map_err(|_| BlockContentParseError::InvalidBlockId {
+                                        value
+                                    })?
+                            }
+                        } else { ArgValue::Value(value) }
                     }
                 },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
-- 
2.43.0


From 5c242a0331cf284a80684be3fd4d5129d2e2f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:35 +0000
Subject: [PATCH 14/37] fix: read an empty number or boolean argument as
 ArgValue::Empty

An empty parameter is how an ArgValue::Empty is written, but reading it back
failed.
---
 src/api/block.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/api/block.rs b/src/api/block.rs
index a2258c8..c15539b 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -695,6 +695,8 @@ impl BlockContent {
                                         value
                                     })?
                             }
+                        } else if value.is_empty() {
+                            ArgValue::Empty
                         } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
@@ -718,6 +720,8 @@ impl BlockContent {
                                         value
                                     })?
                             }
+                        } else if value.is_empty() {
+                            ArgValue::Empty
                         } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidNumberArgument {
@@ -797,6 +801,8 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
+                                } else if value.is_empty() {
+                                    ArgValue::Empty
                                 } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidNumberArgument {
@@ -822,6 +828,8 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
+                                } else if value.is_empty() {
+                                    ArgValue::Empty
                                 } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
-- 
2.43.0


From 37204abc61a13835a7d9367a2749cab106d35a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:03 +0000
Subject: [PATCH 15/37] fix: return the type id from_view reads for every view
 type

Vertical scroll views, switches, seek bars, calendar views, fabs, ad views and
map views had the id of another view type.
---
 src/api/view.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/api/view.rs b/src/api/view.rs
index 1b26de5..af35ca1 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -324,6 +324,7 @@ impl ViewType {
     pub fn get_type_id(&self) -> u8 {
         match self {
             ViewType::LinearLayout { .. }   => 0,
+            ViewType::ScrollView { orientation: Orientation::Vertical, .. } => 12,
             ViewType::ScrollView { .. }     => 2,
             ViewType::Button { .. }         => 3,
             ViewType::TextView { .. }       => 4,
@@ -334,12 +335,12 @@ impl ViewType {
             ViewType::ListView { .. }       => 9,
             ViewType::Spinner { .. }        => 10,
             ViewType::CheckBox { .. }       => 11,
-            ViewType::Switch { .. }         => 12,
-            ViewType::SeekBar { .. }        => 13,
-            ViewType::CalendarView { .. }   => 14,
-            ViewType::Fab { .. }            => 15,
-            ViewType::AdView { .. }         => 16,
-            ViewType::MapView               => 17,
+            ViewType::Switch { .. }         => 13,
+            ViewType::SeekBar { .. }        => 14,
+            ViewType::CalendarView { .. }   => 15,
+            ViewType::Fab { .. }            => 16,
+            ViewType::AdView { .. }         => 17,
+            ViewType::MapView               => 18,
         }
     }
 
-- 
2.43.0


From 981bb21d78dc29271f00a593cf64a2b3f388ae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:05 +0000
Subject: [PATCH 16/37] fix: write the type of a view according to its view
 field

As documented on View, the type of the written view depends on the view field,
but the type of the raw view was always written.
---
 src/api/view.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/view.rs b/src/api/view.rs
index af35ca1..b305d3d 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -546,6 +546,7 @@ pub fn flatten_views(views: Vec<View>, parent_id: Option<String>, parent_type: O
             // use the one in the raw view
             result_view.r#type
         };
+        result_view.r#type = view_type_id;
 
         // and then just map the variables
         result_view.layout.height = view.height;
-- 
2.43.0


From c5b13c92cc4046dfe9feaa1c8bc8f524b49cc397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:07 +0000
Subject: [PATCH 17/37] fix: keep the layout orientation of scroll views

It does not tell the orientation of a scroll view, the view type does, and
writing an unmodified scroll view altered it.
---
 src/api/view.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/view.rs b/src/api/view.rs
index b305d3d..60dd079 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -352,8 +352,8 @@ impl ViewType {
                 view.layout.gravity = gravity;
             }
 
-            ViewType::ScrollView { orientation, gravity } => {
-                view.layout.orientation = orientation;
+            // the orientation of a scroll view is told by its type
+            ViewType::ScrollView { gravity, .. } => {
                 view.layout.gravity = gravity;
             }
 
-- 
2.43.0


From cea4b2a2f074ac4d2ab5e3c9fd89b376806e41e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:44 +0000
Subject: [PATCH 18/37] fix: write the target id of activity events

Activity events target themselves by name; converting them through the API left
the target id empty.
---
 src/api/screen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/screen.rs b/src/api/screen.rs
index f40a854..4d3cfcc 100644
--- a/src/api/screen.rs
+++ b/src/api/screen.rs
@@ -166,7 +166,10 @@ impl EventType {
                 event.target_type = component_type;
             }
 
-            EventType::ActivityEvent => event.event_type = 3
+            EventType::ActivityEvent => {
+                event.event_type = 3;
+                event.target_id = event.event_name.to_owned();
+            }
         }
     }
 }
-- 
2.43.0


From fb701ce1eaa3250adc7e620e7afa236162e1081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:46 +0000
Subject: [PATCH 19/37] fix: give screens without logic their java name

The layout name was used instead, so logic added to such a screen could not be
found again when the project is read back.
---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 20d8268..2f1c6a8 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -353,7 +353,7 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
                 // if it can't find any logic then create an empty ScreenLogic
                 let logic = val.logic.screens
                     .remove(view_name_to_logic(name.as_str()).as_str())
-                    .unwrap_or_else(||ScreenLogic::new_empty(file_entry.filename.clone()));
+                    .unwrap_or_else(||ScreenLogic::new_empty(view_name_to_logic(name.as_str())));
 
                 // get our fab (if we have one)
                 let fab = val.view.fabs
-- 
2.43.0


From 3011078b6625dd6301f3a687c50b6c962324c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:48 +0000
Subject: [PATCH 20/37] fix: keep resource files that were given

Resource files were dropped exactly when the project had them.
---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 2f1c6a8..e11f4f0 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -763,7 +763,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                 fabs
             },
             logic: parser::logic::Logic { screens: logic_screens },
-            resource_files: val.automatic_res_file_ids.then(|| ResourceFiles {
+            resource_files: (!val.automatic_res_file_ids).then(|| ResourceFiles {
                 custom_icon: val.custom_icon,
                 images: image_resource_files,
                 sounds: sound_resource_files,
-- 
2.43.0


From 48e3d4c2b222e66cf92db5fa596a3c40d5fa3b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:50 +0000
Subject: [PATCH 21/37] fix: reject taken resource ids of every resource type

Only images were checked, so a sound or font could be overwritten or be hidden by
a resource of another type.
---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index e11f4f0..b6cd7ae 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -205,7 +205,7 @@ impl Resources {
         }
 
         // check if there is already a resource file with this id
-        if self.images.contains_key(&id) {
+        if self.get_resource(&id).is_some() {
             return Err(ResourceAdditionError::IdTaken { id });
         }
 
-- 
2.43.0


From 2802f007d75bb28593c7dd2dd2ba6616e9ed5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:52 +0000
Subject: [PATCH 22/37] fix: only leave out the onCreate event of the activity

View and component events of that name were dropped on reconstruction as well.
---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index b6cd7ae..fecac0c 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -576,7 +576,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
 
                         // drop this event if its onCreate, but preserve the block container
                         // see `api::screen::Screen::from_parsed` comments for more explanation
-                        if event.event_name == "onCreate" { return None; }
+                        if event.event_name == "onCreate" && event.event_type == 3 { return None; }
 
                         Some(event)
                     })
-- 
2.43.0


From 974a518a655f7add281e96979ba01be6bc86661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:00 +0000
Subject: [PATCH 23/37] fix: reject decrypted data whose padding is longer than
 a block

---
 src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8b07dc6..c247218 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,7 @@ use aes::Aes128;
 use thiserror::Error;
 
 const KEY: &str = "sketchwaresecure";
+const BLOCK_SIZE: usize = 16;
 
 type Aes128Cbc = Cbc<Aes128, Pkcs7>;
 
@@ -32,10 +33,15 @@ pub fn decrypt_sw_encrypted(data: &[u8]) -> Result<Vec<u8>, CryptoError> {
 
     let mut buffer: Vec<u8> = data.clone().to_vec();
 
-    Ok(Vec::from(
-        cipher.decrypt(&mut buffer)
-            .map_err(CryptoError::DecryptionError)?
-    ))
+    let decrypted = cipher.decrypt(&mut buffer)
+        .map_err(CryptoError::DecryptionError)?;
+
+    // the padding is never longer than a single block
+    if data.len() - decrypted.len() > BLOCK_SIZE {
+        return Err(CryptoError::DecryptionError(BlockModeError));
+    }
+
+    Ok(Vec::from(decrypted))
 }
 
 pub fn encrypt_sw_file_to_file(file: &Path, out: Option<&Path>) -> Result<(), CryptoError> {
-- 
2.43.0


From 4c932db7fa111422fba257bd9bfc852131caf495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:52 +0000
Subject: [PATCH 24/37] fix: keep the custom icon of a project opened without
 resource files

---
 src/api/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index fecac0c..7f2b7eb 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -403,6 +403,8 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
             // to own Option<>
             custom_icon: if let Some(rf) = &val.resource_files {
                 rf.custom_icon.clone()
+            } else if val.project.custom_icon {
+                Some(ResourceFileWrapper::make_random_id("icon.png".to_string(), ResourceType::CustomIcon))
             } else { None },
             metadata: Metadata {
                 local_id: val.project.id,
-- 
2.43.0


From e7aa5dcdea4a93c22a288c6d56db59b788a553f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:36 +0000
Subject: [PATCH 25/37] fix: report a logic line that is not a header instead
 of dropping the rest of the file

---
 src/parser/logic.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index eaf5db6..110ce66 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -31,9 +31,17 @@ impl Parsable for Logic {
             if line.is_none() { break; }
             let line = line.unwrap();
 
+            // blank lines between the sections don't mean anything
+            if line.is_empty() {
+                line_counter += 1;
+                continue;
+            }
+
             if !line.starts_with("@") {
-                // todo: warning: skipping line {} because it doesn't resemble a header
-                break;
+                return Err(LogicParseError::BlockContainerHeaderParseError {
+                    line: line_counter,
+                    source: BlockContainerHeaderParseError::DoesntStartWithAtSign
+                });
             }
 
             if let Some(screen_name) = line[1..].strip_suffix(".java_var") {
-- 
2.43.0


From 2b56f45113e4ff071a60662d5e5160346da8c189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:38 +0000
Subject: [PATCH 26/37] fix: report a view header that is not understood
 instead of dropping the rest of the file

---
 src/parser/view.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 977b1f0..d6f69d3 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -25,7 +25,15 @@ impl Parsable for View {
         let mut fabs = LinkedHashMap::<String, AndroidView>::new();
 
         while let Some(line) = lines.next() {
-            if !line.starts_with("@") { break; }
+            // blank lines between the sections don't mean anything
+            if line.is_empty() { continue; }
+
+            if !line.starts_with("@") {
+                return Err(ViewParseError::InvalidHeader {
+                    line: lines.get_count(),
+                    content: line.to_string()
+                });
+            }
 
             let (screen_name, container_type) =
                 &line[1..]
@@ -61,6 +69,12 @@ impl Parsable for View {
                     })?;
 
                 fabs.insert(screen_name.to_string(), fab_view);
+
+            } else {
+                return Err(ViewParseError::InvalidHeader {
+                    line: lines.get_count(),
+                    content: line.to_string()
+                });
             }
         }
 
-- 
2.43.0


From 2fe121a014993080f72173430551a1e20a8a05f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:26 +0000
Subject: [PATCH 27/37] fix: don't drop file items after a blank line or before
 a known section

---
 src/parser/file.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/file.rs b/src/parser/file.rs
index e80d065..044c38a 100644
--- a/src/parser/file.rs
+++ b/src/parser/file.rs
@@ -37,10 +37,8 @@ impl Parsable for File {
             } else if line == "@customview" {
                 cur_section = FileSection::CustomView;
 
-            } else if cur_section != FileSection::None {
+            } else if !line.is_empty() {
                 // parse the file item if the line isn't empty
-                if line.is_empty() { break; }
-
                 let file_item = FileItem::parse(line)
                     .map_err(|err| FileParseError::FileItemParseError {
                         source: err,
@@ -53,7 +51,13 @@ impl Parsable for File {
                     &mut result.activities
                 } else if cur_section == FileSection::CustomView {
                     &mut result.custom_views
-                } else { break }
+                } else {
+                    return Err(FileParseError::FileItemParseError {
+                        source: serde::de::Error::custom("file item before any section"),
+                        line: line_count,
+                        content: line.to_string()
+                    });
+                }
                     .push(file_item)
             }
 
-- 
2.43.0


From a6f7e64ef72e856f0e30bacb15d7c63706b7093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:28 +0000
Subject: [PATCH 28/37] fix: don't drop resource items after a blank line or
 before a known section

---
 src/parser/resource.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/resource.rs b/src/parser/resource.rs
index ac39da4..02fb492 100644
--- a/src/parser/resource.rs
+++ b/src/parser/resource.rs
@@ -40,10 +40,8 @@ impl Parsable for Resource {
             } else if line == "@fonts" {
                 cur_section = ResourceSection::Fonts
 
-            } else if cur_section != ResourceSection::None {
+            } else if !line.is_empty() {
                 // parse the resource item if the line isn't empty
-                if line.is_empty() { break; }
-
                 let resource_item = ResourceItem::parse(line)
                     .map_err(|err| ResourceParseError::ResourceItemParseError {
                         source: err,
@@ -58,7 +56,13 @@ impl Parsable for Resource {
                     &mut result.sounds
                 } else if cur_section == ResourceSection::Fonts {
                     &mut result.fonts
-                } else { break }
+                } else {
+                    return Err(ResourceParseError::ResourceItemParseError {
+                        source: serde::de::Error::custom("resource item before any section"),
+                        section: cur_section,
+                        line: line_count
+                    });
+                }
                     .push(resource_item)
             }
 
-- 
2.43.0


From 7e4623b1cd5c8e3765a3066549cb34ffa29c3c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 29/37] fix: reject view numbers that json can't represent

3.5e38 and up were read as infinity, which was written as null and couldn't be read again
---
 src/parser/serde_util.rs | 22 +++++++++++++++++++++-
 src/parser/view.rs       |  7 ++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index dc5c4f5..b1081db 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -90,4 +90,24 @@ pub(crate) mod bool_to_str {
             _ => { Err(D::Error::custom("true or false")) }
         }
     }
-}
\ No newline at end of file
+}
+
+/// this module makes sure a float is a number that json can represent, json doesn't have infinities or NaN
+pub(crate) mod finite_f32 {
+    use serde::{Deserialize, Deserializer, Serialize, Serializer};
+    use serde::de::Error;
+
+    pub fn serialize<S>(val: &f32, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer {
+        if !val.is_finite() {
+            return Err(<S::Error as serde::ser::Error>::custom("number out of range"));
+        }
+
+        val.serialize(serializer)
+    }
+
+    pub fn deserialize<'de, D>(deserializer: D) -> Result<f32, D::Error> where D: Deserializer<'de> {
+        Some(f32::deserialize(deserializer)?)
+            .filter(|val| val.is_finite())
+            .ok_or_else(|| D::Error::custom("number out of range"))
+    }
+}
diff --git a/src/parser/view.rs b/src/parser/view.rs
index d6f69d3..5b12535 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -263,7 +263,7 @@ pub mod models {
     use serde::{Deserialize, Serialize};
     use crate::color::Color;
     use crate::parser::Parsable;
-    use crate::parser::serde_util::{bool_to_one_zero, bool_to_str};
+    use crate::parser::serde_util::{bool_to_one_zero, bool_to_str, finite_f32};
     use crate::parser::view::models::layout::gravity::Gravity;
 
     #[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
@@ -271,6 +271,7 @@ pub mod models {
     pub struct AndroidView {
         pub ad_size: String, // ""
         pub ad_unit_id: String, // ""
+        #[serde(with = "finite_f32")]
         pub alpha: f32, // 1.0
 
         #[serde(with = "bool_to_one_zero")]
@@ -315,11 +316,15 @@ pub mod models {
         pub pre_parent_type: i8, // 0 - note: can be -1 for some reason ¯\_(ツ)_/¯
         pub progress: u32, // 0
         pub progress_style: String, // "?android:progressBarStyle", Enum?
+        #[serde(with = "finite_f32")]
         pub scale_x: f32, // 1.0
+        #[serde(with = "finite_f32")]
         pub scale_y: f32, // 1.0
         pub spinner_mode: SpinnerMode, // 1: Dropdown
         pub text: TextConfig,
+        #[serde(with = "finite_f32")]
         pub translation_x: f32, // 0.0
+        #[serde(with = "finite_f32")]
         pub translation_y: f32, // 0.0
         pub r#type: u8, // 0
     }
-- 
2.43.0


From 0344bd478e9292e2adaa3d72a6c3a996ae7ee9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 30/37] fix: report the real line of a logic section that
 cannot be parsed

---
 src/parser/logic.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 110ce66..f7feeca 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -3,6 +3,7 @@ use serde::{Serialize, Deserialize};
 use crate::color::Color;
 use crate::parser::Parsable;
 use thiserror::Error;
+use crate::util::CountingIterator;
 use crate::parser::logic::component::{ComponentPoolParseError, ComponentPoolReconstructionError};
 use crate::parser::logic::event::EventPoolParseError;
 use crate::parser::logic::list_variable::ListVariablePoolParseError;
@@ -22,20 +23,19 @@ impl Parsable for Logic {
     type ReconstructionError = LogicReconstructionError;
 
     fn parse(logic: &str) -> Result<Logic, Self::ParseError> {
-        let mut lines = logic.split("\n");
+        let mut lines = CountingIterator::new(logic.split("\n"));
         let mut screens = LinkedHashMap::<String, ScreenLogic>::new();
-        let mut line_counter = 0u32;
 
         loop {
             let line = lines.next();
             if line.is_none() { break; }
             let line = line.unwrap();
 
+            // the pools below also take their lines from the iterator, so count with it
+            let line_counter = lines.get_count() - 1;
+
             // blank lines between the sections don't mean anything
-            if line.is_empty() {
-                line_counter += 1;
-                continue;
-            }
+            if line.is_empty() { continue; }
 
             if !line.starts_with("@") {
                 return Err(LogicParseError::BlockContainerHeaderParseError {
@@ -163,8 +163,6 @@ impl Parsable for Logic {
                     .block_containers
                     .insert(container_name.to_owned(), blocks);
             }
-
-            line_counter += 1;
         }
 
         Ok(Logic { screens })
-- 
2.43.0


From 8bfbbb402fa8b1432d9aaf0a18fe5fcdcdd5d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 31/37] fix: report the real line of a library item that cannot
 be parsed

---
 src/parser/library.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/library.rs b/src/parser/library.rs
index 3583285..ec50fe2 100644
--- a/src/parser/library.rs
+++ b/src/parser/library.rs
@@ -27,6 +27,9 @@ impl Parsable for Library {
         macro_rules! library_item_set {
             ($variable:ident, $header:expr) => {
                 {
+                    // the item is on the line after its header
+                    line_count += 1;
+
                     $variable = Some(LibraryItem::parse(
                         newline_iter.next()
                             .ok_or_else(|| LibraryParseError::EOFAfterHeader {
-- 
2.43.0


From cfee74894bd9cdf405779310f8aa255b035e03c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 32/37] fix: show the record of a floating action button that
 cannot be parsed, not its header

---
 src/parser/view.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 5b12535..39aa8ab 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -54,19 +54,21 @@ impl Parsable for View {
                 layouts.insert(screen_name.to_string(), screen);
 
             } else if *container_type == "xml_fab" {
+                let fab_line =
+                    lines.next()
+                        .ok_or_else(|| ViewParseError::EOFAfterFabHeader {
+                            screen_name: screen_name.to_string(),
+                            line: lines.get_count()
+                        })?;
+
                 let fab_view =
-                    AndroidView::parse(
-                        lines.next()
-                            .ok_or_else(|| ViewParseError::EOFAfterFabHeader {
-                                screen_name: screen_name.to_string(),
-                                line: lines.get_count()
-                            })?
-                    ).map_err(|err| ViewParseError::FabParseError {
-                        screen_name: screen_name.to_string(),
-                        line: lines.get_count(),
-                        content: line.to_string(),
-                        source: err
-                    })?;
+                    AndroidView::parse(fab_line)
+                        .map_err(|err| ViewParseError::FabParseError {
+                            screen_name: screen_name.to_string(),
+                            line: lines.get_count(),
+                            content: fab_line.to_string(),
+                            source: err
+                        })?;
 
                 fabs.insert(screen_name.to_string(), fab_view);
 
-- 
2.43.0


From b63162a6fdc43d0226f74060d366994031efb4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 33/37] fix: name the taken resource id in the error message

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 7f2b7eb..5e92dba 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -226,7 +226,7 @@ impl Resources {
 
 #[derive(Error, Debug)]
 pub enum ResourceAdditionError {
-    #[error("resource id `{}` is already taken", 0.0)]
+    #[error("resource id `{}` is already taken", .id.0)]
     IdTaken { id: ResourceId },
 
     #[error("file `{path:?}` does not exist")]
-- 
2.43.0


From 47d79c8f70c94e7c5e83d44ad7705aff4f7f5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:11 +0000
Subject: [PATCH 34/37] fix: don't report left, right, top and bottom gravity
 as centered

---
 src/parser/view.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 39aa8ab..6838787 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -544,11 +544,12 @@ pub mod models {
             impl Gravity {
                 pub fn new(value: u8) -> Gravity { Gravity(value) }
 
-                pub fn center_horizontal(&self) -> bool { self.0 & CENTER_HORIZONTAL == CENTER_HORIZONTAL }
+                // the bits of the center flags are also part of the other flags of their axis
+                pub fn center_horizontal(&self) -> bool { self.0 & (LEFT | RIGHT) == CENTER_HORIZONTAL }
                 pub fn left(&self) -> bool              { self.0 & LEFT == LEFT }
                 pub fn right(&self) -> bool             { self.0 & RIGHT == RIGHT }
-                pub fn center_vertical(&self) -> bool   { self.0 & CENTER_VERTICAL == CENTER_VERTICAL }
-                pub fn center(&self) -> bool            { self.0 & CENTER == CENTER }
+                pub fn center_vertical(&self) -> bool   { self.0 & (TOP | BOTTOM) == CENTER_VERTICAL }
+                pub fn center(&self) -> bool            { self.center_horizontal() && self.center_vertical() }
                 pub fn top(&self) -> bool               { self.0 & TOP == TOP }
                 pub fn bottom(&self) -> bool            { self.0 & BOTTOM == BOTTOM }
             }
-- 
2.43.0


From 4087162cee555baf1a3bd457e87cf721cec443de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:29 +0000
Subject: [PATCH 35/37] fix: refuse an unknown enabled flag of the compat
 library

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 5e92dba..7da4201 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -426,7 +426,7 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
             screens: activities,
             custom_views,
             libraries: Libraries {
-                app_compat_enabled: val.library.compat.use_yn == "Y",
+                app_compat_enabled: library_conv!("compat", compat, ()).is_some(),
                 firebase: library_conv!("firebase", firebase_db, Firebase {
                     project_id: val.library.firebase_db.data,
                     app_id: val.library.firebase_db.reserved1,
-- 
2.43.0


From e7eccfe38052bda563e3463f67c95f31fa2842b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:29 +0000
Subject: [PATCH 36/37] fix: keep the whole name of a block container that
 contains `.java_`

---
 src/parser/logic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index f7feeca..eb6bab1 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -996,7 +996,7 @@ impl Parsable for BlockContainerHeader {
             return Err(BlockContainerHeaderParseError::DoesntStartWithAtSign)
         }
 
-        let mut parts = s.split(".java_");
+        let mut parts = s.splitn(2, ".java_");
         let screen_name = parts.next()   // [1..] to get rid of the @ at the start
             .ok_or_else(||BlockContainerHeaderParseError::NoScreenName)?[1..].to_string();
 
-- 
2.43.0


From a206008b48e1749c5edce201d1c52e79c9da61f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:29 +0000
Subject: [PATCH 37/37] fix: keep the code of events that share a block
 container

---
 src/api/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 7da4201..7c981b0 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -573,8 +573,12 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                         let block_container_id = event.get_block_container_id();
                         let (event, blocks) = event.into_parser_event();
 
-                        let block_container = blocks.into();
-                        block_containers.insert(block_container_id, block_container);
+                        let block_container: parser::logic::BlockContainer = blocks.into();
+
+                        // events that share a container must not clear the code of each other
+                        if !block_container.0.is_empty() || !block_containers.contains_key(&block_container_id) {
+                            block_containers.insert(block_container_id, block_container);
+                        }
 
                         // drop this event if its onCreate, but preserve the block container
                         // see `api::screen::Screen::from_parsed` comments for more explanation
-- 
2.43.0

