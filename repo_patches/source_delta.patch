From 436f1e7158194f45f49d07effa218182bce73916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 01/18] fix: an unfinished tag name at the end of input no
 longer panics

`<a` made eof() (or the later render, with auto_fix_unclosed_tag) panic
because the tag had no meta yet.
---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 80657f3..a2d2c6c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2015,6 +2015,10 @@ impl Doc {
 
 	// end of the doc
 	fn eof(&mut self, context: &str) -> HResult {
+		// the name of the last tag may be still unfinished
+		if self.code_in == CodeTypeIn::Tag && self.current_node.borrow().meta.is_none() {
+			self.set_tag_meta();
+		}
 		let cur_depth = self.chain_nodes.len();
 		// check if all tags are closed correctly.
 		if cur_depth > 1 {
-- 
2.43.0


From 688a46bc033727c720a7397d1fc989cc0518bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 02/18] fix: do not add an end tag to an unfinished void tag at
 the end of input

`<br` with auto_fix_unclosed_tag was rendered as `<br></br>`, which is not
parseable again.
---
 src/parser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index a2d2c6c..65a7091 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2019,6 +2019,17 @@ impl Doc {
 		if self.code_in == CodeTypeIn::Tag && self.current_node.borrow().meta.is_none() {
 			self.set_tag_meta();
 		}
+		// an unfinished void tag doesn't need an end tag
+		if self.code_in == CodeTypeIn::Tag
+			&& self
+				.current_node
+				.borrow()
+				.meta
+				.as_ref()
+				.map_or(false, |meta| meta.borrow().is_void)
+		{
+			self.chain_nodes.pop();
+		}
 		let cur_depth = self.chain_nodes.len();
 		// check if all tags are closed correctly.
 		if cur_depth > 1 {
-- 
2.43.0


From ce7ffd0c822822d19c71c13bb097551295d54d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 03/18] fix: a doctype ending with `/>` must not pop its parent
 from the chain

`<!DOCTYPE html/><p></p>` panicked because the root node was popped.
---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 65a7091..de8cecf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1113,7 +1113,10 @@ fn parse_tag_self_closing(doc: &mut Doc, c: char, context: &str) -> HResult {
 			} else {
 				panic!("self-closing tag's meta is emtpy");
 			}
-			doc.chain_nodes.pop();
+			// the doctype is not in chain nodes
+			if !matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) {
+				doc.chain_nodes.pop();
+			}
 			doc.set_code_in(CodeTypeIn::Unkown);
 		}
 		END_SLASH_CHAR => {
-- 
2.43.0


From 6c2e0005093b7b22bc274fe09f91444c05c41549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 04/18] fix: leave the svg/math mode exactly when its own
 element is closed

`<svg></SVG>` never left the mode (so `<svg></SVG><![CDATA[` panicked and
`<svg></SVG><div/>` was accepted), and a nested `<svg>` left it too early.
---
 src/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index de8cecf..642fe33 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1364,9 +1364,7 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				// set code in
 				doc.set_code_in(Unkown);
 				// end of special tag
-				if doc.in_special.is_some()
-					&& is_equal_chars(&doc.in_special.as_ref().unwrap().1, fix_end_tag_name, &None)
-				{
+				if doc.in_special.is_some() && doc.chain_nodes.len() < doc.special_depth {
 					doc.in_special = None;
 				}
 				// set end tag more info
@@ -1709,6 +1707,7 @@ pub struct Doc {
 	chain_nodes: Vec<RefNode>,
 	current_node: RefNode,
 	in_special: Option<(SpecialTag, Vec<char>)>,
+	special_depth: usize,
 	repeat_whitespace: bool,
 	check_textnode: Option<RefNode>,
 	handle: NextHandle,
@@ -1745,6 +1744,7 @@ impl Doc {
 			current_node,
 			detect: None,
 			in_special: None,
+			special_depth: 0,
 			parse_options: Default::default(),
 			repeat_whitespace: false,
 			check_textnode: None,
@@ -2228,6 +2228,7 @@ impl Doc {
 		} else {
 			if self.in_special.is_none() {
 				// not void elements will check if special
+				self.special_depth = self.chain_nodes.len();
 				self.in_special = if let Some(&special) = SPECIAL_TAG_MAP.get(&lc_tag_name) {
 					Some((
 						special,
-- 
2.43.0


From 739c06d71e16c5893fe50fb71e9c75786e9d23f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 05/18] fix: keep the leading slash of an unquoted attribute
 value

`<a href=/foo>` was parsed as `href=foo`.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 642fe33..2b90b5d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1181,7 +1181,7 @@ fn parse_tag_wait(doc: &mut Doc, c: char, context: &str) -> HResult {
 				doc.check_tag_type_do();
 			}
 		}
-		END_SLASH_CHAR => {
+		END_SLASH_CHAR if !doc.is_tag_code_in(&TagCodeIn::WaitValue) => {
 			// parse self closing
 			doc.handle = parse_tag_self_closing;
 		}
-- 
2.43.0


From 5e0419ebcef10d95d61d268f4f5c8134c777a8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 06/18] fix: recognize the end of an empty comment or cdata
 section

`<!---->` swallowed everything up to the next `-->`.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2b90b5d..199a542 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1499,7 +1499,7 @@ fn parse_comment_or_cdata(doc: &mut Doc, c: char, _: &str) -> HResult {
 	if c == TAG_END_CHAR {
 		let chars = &doc.prev_chars;
 		let total = chars.len();
-		if total > 2 {
+		if total >= 2 {
 			let end_symbol = doc.mark_char;
 			let prev_char = chars[total - 1];
 			if prev_char == end_symbol && chars[total - 2] == end_symbol {
-- 
2.43.0


From 6d7a4ad6de957e92764923d6daea31cb4004779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 07/18] fix: add the text of an unescaped '<' to the innermost
 unclosed tag

The text node had no parent and no root, and it became a child of a void
tag (`<br><1`) or of a closed script tag (`<script></script><1`).
---
 src/parser.rs | 47 +++++++----------------------------------------
 1 file changed, 7 insertions(+), 40 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 199a542..64353a0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1941,8 +1941,6 @@ impl Doc {
 	// fix unescaped left angle bracket
 	fn fix_unescaped_lt(&mut self, c: char, context: &str) -> HResult {
 		let mut chars = vec!['&', 'l', 't', ';'];
-		let mut parent: Option<RefNode> = None;
-		let mut need_parent = false;
 		let node_type = self.current_node.borrow().node_type;
 		let is_end_text = c == TAG_BEGIN_CHAR;
 		if !is_end_text {
@@ -1962,47 +1960,16 @@ impl Doc {
 					self.current_node.borrow_mut().node_type = NodeType::Text;
 				}
 			}
-			NodeType::Tag => {
-				// tag, check if auto fix or self closing
-				let is_closed = self
-					.current_node
-					.borrow()
-					.meta
-					.as_ref()
-					.map_or(false, |meta| {
-						let meta = &meta.borrow();
-						meta.self_closed || meta.auto_fix
-					});
-				if !is_closed {
-					parent = Some(Rc::clone(&self.current_node));
-				} else {
-					need_parent = true;
-				}
-			}
 			_ => {
-				need_parent = true;
+				// add a new text node to the innermost unclosed tag
+				self.add_new_node(Rc::new(RefCell::new(Node::new(
+					NodeType::Text,
+					self.mem_position,
+				))));
+				// set prev chars
+				self.prev_chars = chars;
 			}
 		}
-		if need_parent {
-			if !self.chain_nodes.is_empty() {
-				let index = self.chain_nodes.len() - 1;
-				parent = Some(Rc::clone(&self.chain_nodes[index]));
-			} else {
-				parent = Some(Rc::clone(&self.root));
-			}
-		}
-		if let Some(parent) = &parent {
-			let text_node = Node::new(NodeType::Text, self.mem_position);
-			let current_node = Rc::new(RefCell::new(text_node));
-			let mut parent = parent.borrow_mut();
-			let childs = parent.childs.get_or_insert(Vec::new());
-			current_node.borrow_mut().index = childs.len();
-			childs.push(Rc::clone(&current_node));
-			// set current node as text node
-			self.current_node = current_node;
-			// set prev chars
-			self.prev_chars = chars;
-		}
 		self.repeat_whitespace = false;
 		self.set_code_in(CodeTypeIn::TextNode);
 		// if is end of text<the tag left character>
-- 
2.43.0


From 9dc660b5be8a97d2dfa0b9a12b4782d40531ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 08/18] fix: keep the space after an entity when both
 minify_spaces and decode_entity are set

`a &gt; b` was rendered as `a >b`.
---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index 64353a0..0a3fb5e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -629,6 +629,7 @@ impl Node {
 									result.push(';');
 								}
 								is_in_entity = false;
+								prev_is_space = false;
 							}
 						}
 						// has suffix wrong entity
-- 
2.43.0


From fa9e74262f117703e6c4455e24d848cfa43bea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 09/18] fix: remove_attr_quote keeps the quotes which a value
 needs

`class="a b"` was rendered as `class=a b`, `c=''` as `c=`.
---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0a3fb5e..6d13be6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -298,7 +298,12 @@ impl Attr {
 				ret.push(EQUAL_CHAR);
 			}
 			if let Some(quote) = self.quote {
-				if self.need_quote || !remove_quote {
+				if self.need_quote
+					|| !remove_quote
+					|| !has_key
+					|| content.is_empty()
+					|| content.iter().any(Attr::need_quoted_char)
+				{
 					ret.push(quote);
 					ret.extend_from_slice(content);
 					ret.push(quote);
-- 
2.43.0


From e7e1002ec0507d812dd64e5ae1ff1b8e16e90779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 10/18] fix: always_close_void closes the void tags

It changed nothing for `<br>`, but wrote `<p />..</p>` for an auto fixed
unclosed tag.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6d13be6..38f66ea 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -691,7 +691,7 @@ impl Node {
 						result.extend_from_slice(&attrs);
 					}
 					// add self closing
-					if meta.self_closed || (meta.auto_fix && options.always_close_void) {
+					if meta.self_closed || (meta.is_void && options.always_close_void) {
 						result.push(WS_CHAR);
 						result.push('/');
 					}
-- 
2.43.0


From 2ea7667493d302094e737dd8e48845d6d0703b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 11/18] fix: allow_insert ignores the case of title and
 textarea

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 38f66ea..6e4e91d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -136,7 +136,7 @@ pub fn allow_insert(name: &[char], node_type: NodeType) -> bool {
 		return false;
 	}
 	// TITLE/TEXTAREA
-	if is_plain_text_tag(name, &None) {
+	if is_plain_text_tag(&lc_name, &None) {
 		return node_type == NodeType::Text || node_type == NodeType::SpacesBetweenTag;
 	}
 	// XMLCDATA
-- 
2.43.0


From 796ee8835e234600e906f11946bd60f6034995ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 12/18] fix: minify_spaces keeps the spaces of a pre tag, and
 only of it

A nested `</pre>` ended the outer pre too, and a self closing `<pre />`
never ended.
---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6e4e91d..3b4fa69 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -798,6 +798,7 @@ impl Node {
 	}
 	// build node tree
 	fn build_tree(&self, options: &RenderOptions, status: &mut RenderStatus, result: &mut Vec<char>) {
+		let is_in_pre = status.is_in_pre;
 		self.build_node(options, status, result);
 		if let Some(childs) = &self.childs {
 			if status.root {
@@ -818,6 +819,8 @@ impl Node {
 		if let Some(end_tag) = &self.end_tag {
 			end_tag.borrow().build_node(options, status, result);
 		}
+		// leave the tag
+		status.is_in_pre = is_in_pre;
 	}
 	// build
 	pub fn build(&self, options: &RenderOptions, inner_text: bool) -> Vec<char> {
-- 
2.43.0


From c7fc796801f22399b8fdf3465be9218bcddf1727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 13/18] fix: the only text of a tag is not turned into spaces
 between tags later

`<b> </b><i></i>` lost the space when minified, `<b> </b>` did not.
---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3b4fa69..53b20d9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1367,6 +1367,8 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				};
 				if !is_only_text_child {
 					doc.set_text_spaces_between();
+				} else {
+					doc.check_textnode = None;
 				}
 				// set node end
 				doc.set_tag_end_info();
-- 
2.43.0


From 30c57d2bad23b6350dc73e455054c8c7ed08d87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 14/18] fix: link the end tag of a cloned node to the clone

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 53b20d9..93aa26a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -536,6 +536,9 @@ impl Node {
 	// clone node with reduced code at
 	fn clone_node_with(&self, reduce_code_at: usize) -> RefNode {
 		let parent_node = self.clone_node_without_childs(reduce_code_at);
+		if let Some(end_tag) = &parent_node.borrow().end_tag {
+			end_tag.borrow_mut().parent = Some(Rc::downgrade(&parent_node));
+		}
 		let mut cur_childs: Vec<RefNode> = vec![];
 		if let Some(childs) = &self.childs {
 			for node in childs {
-- 
2.43.0


From 423e18d7b5093007ce04f3aa877a797f6363bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 15/18] fix: parse_file parses the content of the file as it is

A missing relative path or invalid utf-8 panicked, `\r\n` lost its `\r`,
a newline was added at the end, and the line numbers of errors were wrong.
---
 src/parser.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 93aa26a..3b22304 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -10,10 +10,7 @@ use std::fmt;
 use std::rc::{Rc, Weak};
 use std::{
 	cell::{Ref, RefCell},
-	env,
-	fs::File,
-	io::prelude::*,
-	io::BufReader,
+	env, fs,
 	path::Path,
 };
 
@@ -1804,23 +1801,10 @@ impl Doc {
 		let file_path = if file_path.is_absolute() {
 			file_path.to_path_buf()
 		} else {
-			env::current_dir()?.join(filename).canonicalize().unwrap()
+			env::current_dir()?.join(filename).canonicalize()?
 		};
-		let file = File::open(file_path)?;
-		let file = BufReader::new(file);
-		let mut doc = Doc::new();
-		let mut content = String::with_capacity(500);
-		doc.parse_options = options;
-		for line in file.lines() {
-			let line_content = line.unwrap();
-			content.push_str(&line_content);
-			for c in line_content.chars() {
-				doc.next(c, &content)?;
-			}
-			doc.next('\n', &content)?;
-		}
-		doc.eof(&content)?;
-		Ok(doc.into_root())
+		let content = fs::read_to_string(file_path)?;
+		Doc::parse(&content, options)
 	}
 
 	// chars to string
-- 
2.43.0


From 16a9f2944e0d15c3fd4c4afe4007f76467170b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:39 +0000
Subject: [PATCH 16/18] fix: auto_fix_unclosed_tag keeps the unfinished
 attribute at the end of input

`<div class="a` was rendered as `<div class></div>`, `<div cla` as `<div ></div>`.
---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3b22304..c07f8b5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1987,6 +1987,15 @@ impl Doc {
 		if self.code_in == CodeTypeIn::Tag && self.current_node.borrow().meta.is_none() {
 			self.set_tag_meta();
 		}
+		// keep the unfinished attribute
+		if self.code_in == CodeTypeIn::Tag {
+			if self.is_tag_code_in(&TagCodeIn::Key) {
+				self.set_tag_attr_key();
+			} else if self.is_tag_code_in(&TagCodeIn::Value) {
+				let quote = self.mark_char;
+				self.set_tag_attr_value(if quote == WS_CHAR { None } else { Some(quote) });
+			}
+		}
 		// an unfinished void tag doesn't need an end tag
 		if self.code_in == CodeTypeIn::Tag
 			&& self
-- 
2.43.0


From ab62c95175e1a0a1e4ceedd83a51ef318ad13238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:24 +0000
Subject: [PATCH 17/18] fix: decode entities of minified text like those of
 other text

---
 src/parser.rs | 45 +++++++++++----------------------------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c07f8b5..08c5d89 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3,7 +3,7 @@ use crate::config::{ParseOptions, RenderOptions};
 use crate::error::{ErrorKind, ParseError};
 use crate::position::CodeRegion;
 use crate::types::{BoxDynError, GenResult, HResult};
-use htmlentity::entity::{decode_chars_to, encode_char, CharacterSet, EncodeType, Entity};
+use htmlentity::entity::{decode_chars_to, encode_char, CharacterSet, EncodeType};
 use lazy_static::lazy_static;
 use std::collections::HashMap;
 use std::fmt;
@@ -604,43 +604,20 @@ impl Node {
 					// just keep one space
 					let mut prev_is_space = false;
 					if options.decode_entity {
-						let mut start_index: usize = 0;
-						let mut is_in_entity = false;
-						for (index, ch) in content.iter().enumerate() {
-							if !is_in_entity {
-								if ch == &'&' {
-									is_in_entity = true;
-									start_index = index;
-								} else {
-									// judge if whitespace
-									if ch.is_ascii_whitespace() {
-										if prev_is_space {
-											continue;
-										}
-										prev_is_space = true;
-									} else {
-										prev_is_space = false;
-									}
-									result.push(*ch);
-								}
-							} else if ch == &';' {
-								// entity end
-								let entity = &content[start_index + 1..index];
-								if let Ok(decoded) = Entity::decode_chars(entity) {
-									result.push(decoded);
-								} else {
-									result.push('&');
-									result.extend_from_slice(entity);
-									result.push(';');
+						// the whitespaces of the source are minified, not the decoded ones
+						let mut minified: Vec<char> = Vec::with_capacity(content.len());
+						for &c in content {
+							if c.is_ascii_whitespace() {
+								if prev_is_space {
+									continue;
 								}
-								is_in_entity = false;
+								prev_is_space = true;
+							} else {
 								prev_is_space = false;
 							}
+							minified.push(c);
 						}
-						// has suffix wrong entity
-						if is_in_entity {
-							result.extend(&content[start_index..]);
-						}
+						decode_chars_to(&minified, result);
 					} else {
 						// just add one space when meet repeated whitespaces
 						for &c in content {
-- 
2.43.0


From 5ec7c9e7b43bced39b932dc35466188c3f820e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:50 +0000
Subject: [PATCH 18/18] fix: the text of a CDATA section is without its
 delimiters

---
 src/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 08c5d89..143add7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -764,11 +764,17 @@ impl Node {
 				}
 			}
 			XMLCDATA => {
-				result.extend_from_slice(&['<', '!', '[', 'C', 'D', 'A', 'T', 'A', '[']);
+				// the inner text is the content without the delimiters
+				let need_wrap = !matches!(status.inner_type, RenderStatuInnerType::Text);
+				if need_wrap {
+					result.extend_from_slice(&['<', '!', '[', 'C', 'D', 'A', 'T', 'A', '[']);
+				}
 				if let Some(content) = &self.content {
 					result.extend_from_slice(content);
 				}
-				result.extend_from_slice(&[']', ']', '>']);
+				if need_wrap {
+					result.extend_from_slice(&[']', ']', '>']);
+				}
 			}
 			_ => {}
 		}
-- 
2.43.0

