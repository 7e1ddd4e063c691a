From 0d1174f1a16f32e3ad3562060f12f49f8a3d0f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:56 +0000
Subject: [PATCH 01/59] fix: decode &amp; when unescaping URLs in the
 restricted mode instead of panicking

---
 src/htmltools.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/htmltools.rs b/src/htmltools.rs
index e9582ef..12537a5 100644
--- a/src/htmltools.rs
+++ b/src/htmltools.rs
@@ -52,6 +52,7 @@ pub(crate) fn reverse_encode_html(text: &str) -> Cow<str> {
     ENTITY_RE.replace_all(text, |cap: &Captures| {
         let entity = &cap[1];
         match entity {
+            "&amp;" => "&",
             "&lt;" => "<",
             "&gt;" => ">",
             "&quot;" => "\"",
-- 
2.43.0


From d9028617b1edee4694bf70933f179dd0c04a5572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:56 +0000
Subject: [PATCH 02/59] fix: do not slice list and table text in the middle of
 a multi-byte character

---
 src/parser.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cfb3a80..344218f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1002,14 +1002,6 @@ impl <'t> ParserState<'t> {
     /// Inserts <br> before each newline within a specified HTML tag,
     /// unless it is inappropriate (like when a <br> is already there).
     pub(crate) fn do_tag_br<'a>(&mut self, tag: &'static str, input: &'a str) -> Cow<'a, str> {
-
-        fn eq_ignore_ascii_case(a: &str, b: &str) -> bool {
-            if a.len() == b.len() {
-                a.chars().zip(b.chars()).all(|(a_c, b_c)| a_c.eq_ignore_ascii_case(&b_c))
-            } else {
-                false
-            }
-        }
         // Performs an equivalent of
         // `replace_all`with a regular expression
         // r"(?i)(.+)(?!(?<=</dd>|</dt>|</li>|<br/>)|(?<=<br>)|(?<=<br />))\n(?![\s|])"
@@ -1025,20 +1017,19 @@ impl <'t> ParserState<'t> {
             // The <br> is not appropriate to insert after the following prefixes
             const STOP_PREFIXES: [&str; 6] = ["</dd>", "</dt>", "</li>", "<br/>", "<br>", "<br />"];
             let mut output = String::with_capacity(text.len() + num_newlines * br.len());
-            let lc_text = text.to_lowercase();
             let mut next_start = 0;
-            while let Some(rel_newline_pos) = lc_text[next_start..].find('\n') {
+            while let Some(rel_newline_pos) = text[next_start..].find('\n') {
                 let abs_newline_pos = next_start + rel_newline_pos;
                 output += &text[next_start..abs_newline_pos];
                 // Make sure the following characters do not make <br> inappropriate
-                let is_next_good = !lc_text[abs_newline_pos + 1..]
+                let is_next_good = !text[abs_newline_pos + 1..]
                     .starts_with(|c| char::is_whitespace(c) || c == '|');
                 if is_next_good {
                     // The preceding sequence should also be appropriate for <br>
                     let is_prefix_good = !STOP_PREFIXES.iter().any(|p| {
                         let prefix_start = abs_newline_pos - p.len().min(abs_newline_pos);
-                        let prefix = &lc_text[prefix_start..abs_newline_pos];
-                        eq_ignore_ascii_case(prefix, *p)
+                        let prefix = &text.as_bytes()[prefix_start..abs_newline_pos];
+                        prefix.eq_ignore_ascii_case(p.as_bytes())
                     });
                     if is_prefix_good {
                         output += br;
-- 
2.43.0


From 1c879bc751e90dda296712cc6b050572bd211c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:56 +0000
Subject: [PATCH 03/59] fix: avoid an arithmetic overflow on huge start numbers
 of ordered lists

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 344218f..9561ce2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -941,7 +941,7 @@ impl <'t> ParserState<'t> {
                     }
 
                     if show_item {
-                        *start_value += 1;
+                        *start_value = start_value.saturating_add(1);
                     }
                 }
 
-- 
2.43.0


From efb78129e28a57738fcce0849798f554f18edaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:56 +0000
Subject: [PATCH 04/59] fix: do not panic on leftover padding parentheses among
 block attributes

---
 src/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 3e4d568..a7f4b03 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -5,7 +5,7 @@ use fancy_regex::{Regex, Captures};
 
 use crate::regextra::fregex;
 use crate::htmltools::quoteattr;
-use crate::regex_snips::{SNIP_SPACE, SNIP_DIGIT, CLS_RE_S, VALIGN_RE_S, HALIGN_RE_S};
+use crate::regex_snips::{SNIP_SPACE, SNIP_DIGIT, CLS_RE_S, VALIGN_RE_S};
 use crate::htmltools::{generate_tag, encode_html};
 use crate::parser::ParserState;
 
@@ -217,7 +217,7 @@ impl BlockAttributes {
 
         lazy_static! {
             static ref ATTR_HALIGN_RE: Regex = fregex!(
-                &format!(r"({})", HALIGN_RE_S));
+                r"(\<(?!>)|(?<!<)\>|\<\>|\=)");
         }
         if let Ok(Some(m)) = ATTR_HALIGN_RE.captures(&matched) {
             let alignment = match &m[1] {
-- 
2.43.0


From 4b60f49a7dc590583109234c990d372bc0df257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:56 +0000
Subject: [PATCH 05/59] fix: set_align_class returns the configured parser
 instead of dropping it

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9561ce2..3feca85 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2046,8 +2046,9 @@ impl Textile {
     ///
     /// If not set, for XHTML the "align" attribute is going to be used,
     /// and for HTML5 the `align-...` class will be added instead.
-    pub fn set_align_class(mut self, value: bool) {
+    pub fn set_align_class(mut self, value: bool) -> Self {
         self.align_class_enabled = Some(value);
+        self
     }
 
     /// Enables and disables raw blocks.
-- 
2.43.0


From 4b1da11603a230306979d54b982c7f3d639abb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:56 +0000
Subject: [PATCH 06/59] fix: link aliases accept only URLs whose whole scheme
 is allowed

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3feca85..bc3bc0c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -505,7 +505,7 @@ impl <'t> ParserState<'t> {
         fn make_url_ref_re(schemes: &[&str]) -> Regex {
             fregex!(
                 &format!(
-                    r"(?:(?<=^)|(?<=\s))\[(.+)\]((?:{0}:\/\/|\/)\S+)(?=\s|$)",
+                    r"(?:(?<=^)|(?<=\s))\[(.+)\]((?:(?:{0}):|\/)\S+)(?=\s|$)",
                     schemes.join("|")))
         }
         lazy_static! {
-- 
2.43.0


From f71cb1e9c6c0d0c8af672630186f75fbcd41bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:56 +0000
Subject: [PATCH 07/59] fix: strip every occurrence of the internal token
 prefix from the input

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index bc3bc0c..33557f9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1919,8 +1919,11 @@ impl Textile {
         };
 
         let mut state = ParserState::new(self);
-        let text = normalize_newlines(&text)
-            .replace(&state.textile.uid, "");
+        let mut text = normalize_newlines(&text);
+        // Removing one occurrence may bring together the pieces of another one.
+        while text.contains(&self.uid) {
+            text = text.replace(&self.uid, "");
+        }
 
         let text = if self.block_tags {
             let text = state.block(&text);
-- 
2.43.0


From 05c38e65ba8884fa3fad792ac7fbcda3c9725191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:56 +0000
Subject: [PATCH 08/59] fix: set_uid drops cached expressions built for the
 previous uid

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 33557f9..6acef61 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2113,6 +2113,8 @@ impl Textile {
     /// Normally you don't need to use this method. Its intended purpose
     /// is to guarantee stable outputs in automated tests.
     pub fn set_uid(mut self, base_id: &str) -> Self {
+        // The cached expressions were built for the previous uid
+        self.regex_cache.borrow_mut().clear();
         self.uid = format!("textileRef:{0}:", base_id);
         self.link_prefix = format!("{0}-", base_id);
         let dyn_3plus_replacement = format!(
-- 
2.43.0


From 4f86522c55ff5c19500d03ae935c23e19ec460ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:56 +0000
Subject: [PATCH 09/59] fix: treat the uid literally when it is used within
 regular expressions

---
 src/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6acef61..65651c4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -414,7 +414,7 @@ impl <'t> ParserState<'t> {
             .or_default()
             .entry("")
             .or_insert_with(
-                || fregex!(&format!(r"{0}(?P<token>[0-9]+):url", self.textile.uid)));
+                || fregex!(&format!(r"{0}(?P<token>[0-9]+):url", fancy_regex::escape(&self.textile.uid))));
 
         let retrieve_url = |cap: &Captures| -> String {
             let token = &cap["token"];
@@ -1272,7 +1272,7 @@ impl <'t> ParserState<'t> {
                             "\":",
                             // url upto a stopchar
                             r"(?P<urlx>[^{1}]*)"),
-                        needle, STOPCHARS)));
+                        fancy_regex::escape(&needle), STOPCHARS)));
 
         let mut f_link = |cap: &Captures| -> String {
             let in_ = &cap[0];
@@ -1600,7 +1600,7 @@ impl <'t> ParserState<'t> {
                 .or_default()
                 .entry("")
                 .or_insert_with(
-                    || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", self.textile.uid)));
+                    || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", fancy_regex::escape(&self.textile.uid))));
             open_tag_re.replace_all(text, f_retrieve_tags)
         };
         let result = {
@@ -1611,7 +1611,7 @@ impl <'t> ParserState<'t> {
                 .or_default()
                 .entry("")
                 .or_insert_with(
-                    || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", self.textile.uid)));
+                    || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", fancy_regex::escape(&self.textile.uid))));
             close_tag_re.replace_all(&result, f_retrieve_tags)
         };
         result.into_owned()
@@ -2119,7 +2119,7 @@ impl Textile {
         self.link_prefix = format!("{0}-", base_id);
         let dyn_3plus_replacement = format!(
             r#"$1<span class="caps">{0}:glyph:$2</span>$3"#,
-            &self.uid);
+            self.uid.replace('$', "$$"));
         self.dyn_glyph_replacers = [
             // 3+ uppercase
             (DYN_3PLUS_RE.clone(), dyn_3plus_replacement),
-- 
2.43.0


From e855e282a25187ae7f19bb01453b9fa631a37f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:56 +0000
Subject: [PATCH 10/59] fix: list the notes in the order of their numbers when
 there are ten or more

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 65651c4..adb730f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -313,7 +313,8 @@ impl <'t> ParserState<'t> {
                 let mut info_clone = info.clone();
                 if let Some(ref i) = info.seq {
                     info_clone.seq = Some(label.clone());
-                    o.insert(i.clone(), info_clone);
+                    // Zero-padded, for the numbers to be sorted in the numeric order
+                    o.insert(format!("{:0>10}", i), info_clone);
                 } else {
                     self.unreferenced_notes.insert(label.clone(), info_clone);
                 }
-- 
2.43.0


From 44684a76c8267710ce74d8529cce9a69e40730be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:54 +0000
Subject: [PATCH 11/59] fix: keep the content of the notes defined before their
 first reference

---
 src/parser.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index adb730f..0f5c08d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1149,16 +1149,17 @@ impl <'t> ParserState<'t> {
                 num.clone()
             } else {
                 let num = self.note_index.to_string();
-                self.notes.insert(
-                    label.to_string(),
-                    NoteInfo {
-                        seq: Some(num.clone()),
+                self.notes
+                    .entry(label.to_string())
+                    .or_insert_with(|| NoteInfo {
+                        seq: None,
                         id: "".to_owned(),
                         refids: Default::default(),
                         attrs: None,
                         content: None,
                         link: None,
-                    });
+                    })
+                    .seq = Some(num.clone());
                 self.note_index += 1;
                 num
             };
@@ -1171,6 +1172,9 @@ impl <'t> ParserState<'t> {
             let new_id: Cow<str> = if is_note_id_empty {
                 let new_index = self.increment_link_index();
                 format!("{0}{1}", self.textile.link_prefix, new_index).into()
+            } else if self.notes[label].refids.is_empty() {
+                // The note has been defined before its first reference
+                self.notes[label].id.clone().into()
             } else {
                 "".into()
             };
-- 
2.43.0


From 83a0cb386c1e499d3df6093cf689ee618c6a48b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:54 +0000
Subject: [PATCH 12/59] fix: ignore repeated definitions of the same note

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0f5c08d..180fca4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -249,7 +249,7 @@ impl <'t> ParserState<'t> {
         if self.notes.contains_key(label) {
             let note_content = self.graf(content).into_owned();
             if let Some(mut note) = self.notes.get_mut(label) {
-                if note.link.is_none() {
+                if note.content.is_none() {
                     note.link = if link.is_empty() { None } else { Some(link.into()) };
                     note.attrs = Some(
                         BlockAttributes
-- 
2.43.0


From 5309b23bea9c9c798916045da218b1f62e17bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:54 +0000
Subject: [PATCH 13/59] fix: a repeated notelist shows the notes again instead
 of nothing

---
 src/parser.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 180fca4..26723a9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -336,9 +336,9 @@ impl <'t> ParserState<'t> {
                 None => 'a'
             };
             let index = format!("{0}{1}{2}", g_links, extras, start_char);
-            let mut result = String::new();
-
-            if !self.notelist_cache.contains_key(&index) {
+            let result = if let Some(cached) = self.notelist_cache.get(&index) {
+                cached.clone()
+            } else {
                 let mut o = Vec::<String>::new();
                 if !self.notes.is_empty() {
                     for (_seq, info) in self.notes.iter() {
@@ -365,9 +365,10 @@ impl <'t> ParserState<'t> {
                         o.push(format!("\t\t<li{0}>{1}</li>", atts, content));
                     }
                 }
-                result = o.join("\n");
+                let result = o.join("\n");
                 self.notelist_cache.insert(index, result.clone());
-            }
+                result
+            };
             if result.is_empty() {
                 result
             } else {
-- 
2.43.0


From 4483ce4522cd4a5dfef5f99b75f5bf527e7359b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:54 +0000
Subject: [PATCH 14/59] fix: apply the configured rel to links made of images

---
 src/parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 26723a9..258f47e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -604,10 +604,12 @@ impl <'t> ParserState<'t> {
                 let shelved_href = self.shelve_url(
                     self.unrestrict_url(href.as_str()).into());
                 if !shelved_href.is_empty() {
-                    generate_tag(
-                        "a",
-                        Some(&img),
-                        &[("href".into(), shelved_href)])
+                    let mut link_atts = BlockHtmlAttributes::default();
+                    link_atts.insert("href", shelved_href);
+                    if let Some(ref rel) = self.textile.rel {
+                        link_atts.insert("rel", rel.clone());
+                    }
+                    generate_tag("a", Some(&img), &link_atts)
                 } else {
                     img
                 }
-- 
2.43.0


From 4a78f2d394886472e2d900c541593672d198b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:54 +0000
Subject: [PATCH 15/59] fix: check the URL scheme of links made of images

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 258f47e..23fd785 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -554,6 +554,11 @@ impl <'t> ParserState<'t> {
             if !self.is_valid_url(url) {
                 return cap[0].to_owned();
             }
+            if let Some(href) = cap.get(5) {
+                if !self.is_valid_url(&self.unrestrict_url(href.as_str())) {
+                    return cap[0].to_owned();
+                }
+            }
             let mut atts = if let Some(attributes) = cap.get(2) {
                 BlockAttributes::parse(attributes.as_str(), None, true, self.textile.restricted).html_attrs()
             } else {
-- 
2.43.0


From ab86cf248fc6b5b44b0fe6381d60745f032bdf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:54 +0000
Subject: [PATCH 16/59] fix: check the URL scheme of citations

---
 src/block.rs  | 8 +++++---
 src/parser.rs | 7 +++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index a7f4b03..9ce81d3 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -386,9 +386,11 @@ impl Block {
             "bq" => {
                 let mut html_attributes = attributes.html_attrs();
                 if let Some(ref cite) = cite {
-                    let shelved_url = ps.shelve_url(
-                        ps.unrestrict_url(cite.as_str()).into());
-                    html_attributes.insert("cite", shelved_url);
+                    let url = ps.unrestrict_url(cite.as_str());
+                    if ps.is_valid_url(&url) {
+                        let shelved_url = ps.shelve_url(url.into());
+                        html_attributes.insert("cite", shelved_url);
+                    }
                 }
                 outer_opening = format!("<blockquote{0}>\n", html_attributes.to_string());
                 inner_opening = format!("\t<p{0}>", orig_html_attributes.to_string());
diff --git a/src/parser.rs b/src/parser.rs
index 23fd785..27f039c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1502,7 +1502,7 @@ impl <'t> ParserState<'t> {
         prev_text
     }
 
-    fn is_valid_url(&self, url: &str) -> bool {
+    pub(crate) fn is_valid_url(&self, url: &str) -> bool {
         let uri_parts = UrlBits::parse(url);
         if uri_parts.scheme().is_empty() {
             true
@@ -1565,7 +1565,10 @@ impl <'t> ParserState<'t> {
             let atts = &cap[3];
             let mut html_atts = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
             if let Some(cite) = cap.get(4) {
-                html_atts.insert("cite", cite.as_str().trim().to_owned());
+                let cite = cite.as_str().trim();
+                if self.is_valid_url(&self.unrestrict_url(cite)) {
+                    html_atts.insert("cite", cite.to_owned());
+                }
             }
             let content = &cap[5];
             let content = self.span(content);
-- 
2.43.0


From b00d5f63c525f799bcef6d73e886db26fb983c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:54 +0000
Subject: [PATCH 17/59] fix: fetch the sizes of images by their real URLs in
 the restricted mode

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 27f039c..8688ba6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -591,7 +591,7 @@ impl <'t> ParserState<'t> {
             atts.insert("alt", optional_title.unwrap_or_default().to_owned());
 
             if !UrlBits::parse(url).is_relative() && self.textile.get_sizes {
-                if let Some((width, height)) = get_image_size(url) {
+                if let Some((width, height)) = get_image_size(&self.unrestrict_url(url)) {
                     atts.insert("height", height.to_string());
                     atts.insert("width", width.to_string());
                 }
-- 
2.43.0


From ead55a418ee3617fa7d5bb8f1c53ca12d12dc23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:49 +0000
Subject: [PATCH 18/59] fix: escape self-titled links in the restricted mode

---
 src/parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8688ba6..8073288 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -502,6 +502,15 @@ impl <'t> ParserState<'t> {
         }
     }
 
+    /// Reverts `unrestrict_url` for the URLs to be shown as a text.
+    fn restrict_text<'u>(&self, url: &'u str) -> Cow<'u, str> {
+        if self.textile.restricted {
+            encode_html(url, false, false).into()
+        } else {
+            url.into()
+        }
+    }
+
     /// Capture and store URL references in `self.urlrefs`.
     fn get_refs<'a>(&mut self, text: &'a str) -> Cow<'a, str> {
         fn make_url_ref_re(schemes: &[&str]) -> Regex {
@@ -1450,11 +1459,11 @@ impl <'t> ParserState<'t> {
 
             let text: Cow<str> = if text == "$" {
                 if scheme_in_list {
-                    make_url_readable(&url).into()
+                    self.restrict_text(make_url_readable(&url))
                 } else if let Some(rurl) = self.urlrefs.get(url.as_ref()) {
                     encode_html(make_url_readable(rurl.source()), true, true).into()
                 } else {
-                    url
+                    self.restrict_text(&url)
                 }
             } else {
                 text.into()
-- 
2.43.0


From 9e14a8b01bcd290ab7ad2c95d3a0e0b2018d60d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:49 +0000
Subject: [PATCH 19/59] fix: quotes within the title of a link do not end its
 attribute

---
 src/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8073288..966ef3a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1470,7 +1470,6 @@ impl <'t> ParserState<'t> {
             };
 
             let text = text.trim();
-            let title = encode_html(title, false, false);
 
             let text = if !self.textile.noimage {
                 self.image(text)
@@ -1487,7 +1486,7 @@ impl <'t> ParserState<'t> {
             let mut attributes = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
             attributes.insert("href", url_id);
             if !title.is_empty() {
-                attributes.insert("title", self.shelve(title));
+                attributes.insert("title", title.to_owned());
             }
             if let Some(ref rel) = self.textile.rel {
                 attributes.insert("rel", rel.clone());
-- 
2.43.0


From cfd3fc26292e2ebc14c3078a2dff74b3fa0e5311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:49 +0000
Subject: [PATCH 20/59] fix: markup within the attributes of HTML tags cannot
 break out of them

---
 src/block.rs  |  6 +++++-
 src/parser.rs | 35 +++++++++++++++++++++++++++--------
 src/table.rs  |  2 +-
 3 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 9ce81d3..b251d75 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -110,6 +110,7 @@ impl BlockAttributes {
             static ref ATTR_PADDING_LEFT_RE: Regex = fregex!(r"([(]+)");
             static ref ATTR_PADDING_RIGHT_RE: Regex = fregex!(r"([)]+)");
             static ref ATTR_COL_RE: Regex = fregex!(r"^(?:\\(\d+)\.?)?\s*(\d+)?");
+            static ref LANG_RE: Regex = fregex!(r"^[-a-zA-Z0-9_]+$");
             static ref CSS_CLASSES_RE: Regex = fregex!(r"^([-a-zA-Z 0-9_\.\/\[\]]*)$");
         }
         let mut style = Vec::<String>::new();
@@ -159,7 +160,10 @@ impl BlockAttributes {
 
         let lang = match ATTR_LANG_RE.captures(&matched) {
             Ok(Some(m)) => {
-                let result = Some(m[1].to_owned());
+                let result = match LANG_RE.is_match(&m[1]) {
+                    Ok(true) => Some(m[1].to_owned()),
+                    _ => None,
+                };
                 matched = matched.replace(&m[0], "");
                 result
             }
diff --git a/src/parser.rs b/src/parser.rs
index 966ef3a..c25be77 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -141,7 +141,8 @@ fn make_glyph_replacers(is_html5: bool) -> [(Regex, &'static str); 22] {
         // plus/minus
         (fregex!(r"[(\[]\+\/-[\])]"), r"&#177;"),
         // 3+ uppercase acronym
-        (fregex!(&format!(r"\b([{0}][{1}]{{2,}})\b(?:[(]([^)]*)[)])", SNIP_ABR, SNIP_ACR)),
+        // (unless its title contains tokens, which cannot be put into an attribute)
+        (fregex!(&format!(r"\b([{0}][{1}]{{2,}})\b(?:[(]((?:(?!textileRef:)[^)])*)[)])", SNIP_ABR, SNIP_ACR)),
          if is_html5 {r#"<abbr title="$2">$1</abbr>"#} else {r#"<acronym title="$2">$1</acronym>"#}),
     ]
 }
@@ -409,6 +410,24 @@ impl <'t> ParserState<'t> {
         new_text
     }
 
+    /// Replaces all the tokens within a text with whatever they stand for.
+    /// The text of an HTML attribute must be free of tokens before it gets
+    /// quoted, otherwise their content would remain unquoted.
+    pub(crate) fn expand_tokens(&self, text: &str) -> String {
+        let uid = &self.textile.uid;
+        if !text.contains(uid) {
+            return text.to_owned();
+        }
+        let mut new_text = self.retrieve(text.to_owned());
+        for (id, value) in self.ref_cache.iter() {
+            new_text = new_text
+                .replace(&format!("{uid}{id}:ospan "), value)
+                .replace(&format!(" {uid}{id}:cspan"), value)
+                .replace(&format!("{uid}{id}:url"), value);
+        }
+        new_text
+    }
+
     fn retrieve_urls<'a>(&mut self, text: &'a str) -> Cow<'a, str> {
         let mut regex_cache = self.textile.regex_cache.borrow_mut();
         let pattern = regex_cache
@@ -596,8 +615,8 @@ impl <'t> ParserState<'t> {
                 }
             }
 
-            let optional_title = cap.get(4).map(|m| m.as_str());
-            atts.insert("alt", optional_title.unwrap_or_default().to_owned());
+            let optional_title = cap.get(4).map(|m| self.expand_tokens(m.as_str()));
+            atts.insert("alt", optional_title.clone().unwrap_or_default());
 
             if !UrlBits::parse(url).is_relative() && self.textile.get_sizes {
                 if let Some((width, height)) = get_image_size(&self.unrestrict_url(url)) {
@@ -610,7 +629,7 @@ impl <'t> ParserState<'t> {
             atts.insert("src", url_id);
 
             if let Some(title) = optional_title {
-                atts.insert("title", title.to_owned());
+                atts.insert("title", title);
             }
 
             let img = generate_tag("img", None, &atts);
@@ -1486,7 +1505,7 @@ impl <'t> ParserState<'t> {
             let mut attributes = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
             attributes.insert("href", url_id);
             if !title.is_empty() {
-                attributes.insert("title", title.to_owned());
+                attributes.insert("title", self.expand_tokens(title));
             }
             if let Some(ref rel) = self.textile.rel {
                 attributes.insert("rel", rel.clone());
@@ -1573,9 +1592,9 @@ impl <'t> ParserState<'t> {
             let atts = &cap[3];
             let mut html_atts = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
             if let Some(cite) = cap.get(4) {
-                let cite = cite.as_str().trim();
-                if self.is_valid_url(&self.unrestrict_url(cite)) {
-                    html_atts.insert("cite", cite.to_owned());
+                let cite = self.expand_tokens(cite.as_str().trim());
+                if self.is_valid_url(&self.unrestrict_url(&cite)) {
+                    html_atts.insert("cite", cite);
                 }
             }
             let content = &cap[5];
diff --git a/src/table.rs b/src/table.rs
index abfc29f..aea53f9 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -103,7 +103,7 @@ pub(crate) fn process_table<'t>(
 
     if let Some(s) = summary {
         if !s.is_empty() {
-            html_attrs.insert("summary", s.trim().to_owned());
+            html_attrs.insert("summary", parser.expand_tokens(s.trim()));
         }
     }
     let mut caption = String::new();
-- 
2.43.0


From fde6e7fc8092b22db8629688c623de384ac861fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:43 +0000
Subject: [PATCH 21/59] fix: internal tokens do not leak through URLs

---
 src/parser.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c25be77..d810670 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -513,11 +513,15 @@ impl <'t> ParserState<'t> {
     /// prior to any real parsing, we need to undo the encoding in order to
     /// handle the links properly (once the normalization is done they will
     /// be html-encoded again anyway).
+    /// The same goes for the tokens, since the tokens within URLs
+    /// would never be retrieved.
     pub(crate) fn unrestrict_url<'u>(&self, url: &'u str) -> Cow<'u, str> {
-        if self.textile.restricted {
-            reverse_encode_html(url)
-        } else {
-            url.into()
+        let has_tokens = url.contains(&self.textile.uid);
+        match (has_tokens, self.textile.restricted) {
+            (false, false) => url.into(),
+            (false, true) => reverse_encode_html(url),
+            (true, false) => self.expand_tokens(url).into(),
+            (true, true) => reverse_encode_html(&self.expand_tokens(url)).into_owned().into(),
         }
     }
 
@@ -579,7 +583,7 @@ impl <'t> ParserState<'t> {
         }
         let f_image = |cap: &Captures| -> String {
             let url = &cap[3];
-            if !self.is_valid_url(url) {
+            if !self.is_valid_url(&self.unrestrict_url(url)) {
                 return cap[0].to_owned();
             }
             if let Some(href) = cap.get(5) {
@@ -1592,9 +1596,9 @@ impl <'t> ParserState<'t> {
             let atts = &cap[3];
             let mut html_atts = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
             if let Some(cite) = cap.get(4) {
-                let cite = self.expand_tokens(cite.as_str().trim());
-                if self.is_valid_url(&self.unrestrict_url(&cite)) {
-                    html_atts.insert("cite", cite);
+                let cite = cite.as_str().trim();
+                if self.is_valid_url(&self.unrestrict_url(cite)) {
+                    html_atts.insert("cite", self.expand_tokens(cite));
                 }
             }
             let content = &cap[5];
-- 
2.43.0


From fd5fb01c47a07ae384f79b448c75b73e43a3bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:59 +0000
Subject: [PATCH 22/59] fix: do not panic when an expression exceeds the
 backtracking limit on long texts

---
 src/block.rs       |  4 ++--
 src/htmltools.rs   |  4 ++--
 src/parser.rs      |  4 ++--
 src/regex_snips.rs |  3 +--
 src/regextra.rs    | 46 ++++++++++++++++++++++++++++++++++++++++++++--
 src/table.rs       |  3 +--
 6 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index b251d75..f32c861 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1,9 +1,9 @@
 use std::borrow::Cow;
 
 use lazy_static::lazy_static;
-use fancy_regex::{Regex, Captures};
+use fancy_regex::Captures;
 
-use crate::regextra::fregex;
+use crate::regextra::{fregex, Regex};
 use crate::htmltools::quoteattr;
 use crate::regex_snips::{SNIP_SPACE, SNIP_DIGIT, CLS_RE_S, VALIGN_RE_S};
 use crate::htmltools::{generate_tag, encode_html};
diff --git a/src/htmltools.rs b/src/htmltools.rs
index 12537a5..ffff131 100644
--- a/src/htmltools.rs
+++ b/src/htmltools.rs
@@ -3,10 +3,10 @@ use std::collections::HashMap;
 use std::str::FromStr;
 
 use lazy_static::lazy_static;
-use fancy_regex::{Regex, Captures};
+use fancy_regex::Captures;
 
 use crate::html::HTML5;
-use crate::regextra::fregex;
+use crate::regextra::{fregex, Regex};
 use crate::regex_snips::{BLOCK_CONTENT, DIVIDER_RE};
 
 pub(crate) fn encode_html(text: &str, quotes: bool, line_spacers: bool) -> String {
diff --git a/src/parser.rs b/src/parser.rs
index d810670..0fb028b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7,10 +7,10 @@ use std::hash::Hasher;
 
 use indexmap::IndexMap;
 use lazy_static::lazy_static;
-use fancy_regex::{Regex, Captures, Replacer, Match};
+use fancy_regex::{Captures, Replacer, Match};
 
 use crate::charcounter::CharCounter;
-use crate::regextra::{split_with_capture, fregex, multi_replace, multi_replace_with_one, unwrap_or_empty};
+use crate::regextra::{Regex, split_with_capture, fregex, multi_replace, multi_replace_with_one, unwrap_or_empty};
 use crate::htmltools::{generate_tag, encode_html, join_html_attributes, unescape, has_raw_text, reverse_encode_html};
 use crate::table::{process_table, TABLE_SPAN_RE_S};
 use crate::urlutils::{UrlBits, UrlString};
diff --git a/src/regex_snips.rs b/src/regex_snips.rs
index 47e1385..8d2e380 100644
--- a/src/regex_snips.rs
+++ b/src/regex_snips.rs
@@ -2,9 +2,8 @@
 //! Some of the expressions rely on [UNICODE character properties](https://www.unicode.org/reports/tr44/#GC_Values_Table).
 
 use lazy_static::lazy_static;
-use fancy_regex::Regex;
 
-use crate::regextra::fregex;
+use crate::regextra::{fregex, Regex};
 
 // PHP and mrab-regex/Python regular expressions have slightly different
 // meaning of some special character classes, like "\s" or "\v", different
diff --git a/src/regextra.rs b/src/regextra.rs
index 6767c6f..dcd4743 100644
--- a/src/regextra.rs
+++ b/src/regextra.rs
@@ -1,4 +1,6 @@
-use fancy_regex::{Regex, Captures, CaptureMatches, Match};
+use std::borrow::Cow;
+
+use fancy_regex::{Captures, CaptureMatches, Match, Replacer};
 
 pub(crate) const INVALID_REGEX: &str = "An ivalid regular expression";
 
@@ -10,6 +12,46 @@ macro_rules! fregex {
 
 pub(crate) use fregex;
 
+/// `fancy_regex::Regex` whose `replace_all` never panics.
+#[derive(Clone, Debug)]
+pub(crate) struct Regex(fancy_regex::Regex);
+
+impl Regex {
+    pub fn new(re: &str) -> fancy_regex::Result<Self> {
+        fancy_regex::Regex::new(re).map(Self)
+    }
+
+    /// Unlike the original method, which panics once the expression
+    /// exceeds the backtracking limit on a long text, this one keeps
+    /// the rest of such text unchanged.
+    pub fn replace_all<'t, R: Replacer>(&self, text: &'t str, mut rep: R) -> Cow<'t, str> {
+        let mut new_text = String::new();
+        let mut last_end = None;
+        for cap in self.captures_iter(text).map_while(Result::ok) {
+            if let Some(m) = cap.get(0) {
+                new_text.push_str(&text[last_end.unwrap_or(0)..m.start()]);
+                rep.replace_append(&cap, &mut new_text);
+                last_end = Some(m.end());
+            }
+        }
+        match last_end {
+            Some(end) => {
+                new_text.push_str(&text[end..]);
+                new_text.into()
+            },
+            None => text.into(),
+        }
+    }
+}
+
+impl std::ops::Deref for Regex {
+    type Target = fancy_regex::Regex;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
 
 /// At the moment of writing `fancy_regex` does not support splitting
 /// strings with regular expressions "out of the box".
@@ -86,7 +128,7 @@ impl<'r, 't> Iterator for ReSplitWithCapture<'r, 't> {
 /// (when the regular expression captures them), thus mimicking
 /// the behavior of `re.Regex.split` from Python.
 pub(crate) fn split_with_capture<'r, 't>(
-    re: &'r Regex,
+    re: &'r fancy_regex::Regex,
     text: &'t str,
 ) -> ReSplitWithCapture<'r, 't> {
     ReSplitWithCapture {
diff --git a/src/table.rs b/src/table.rs
index aea53f9..21e1e12 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -1,10 +1,9 @@
 use std::borrow::Cow;
 
-use fancy_regex::Regex;
 use lazy_static::lazy_static;
 
 use crate::block::{BlockAttributes, BlockHtmlAttributes};
-use crate::regextra::{split_with_capture, fregex};
+use crate::regextra::{split_with_capture, fregex, Regex};
 use crate::regex_snips::{ALIGN_RE_S, CLS_RE_S, VALIGN_RE_S, SNIP_SPACE, PNCT_RE_S};
 use crate::htmltools::generate_tag;
 
-- 
2.43.0


From 14d6971dfe601711c5c8d0abbaf01160cd138fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:00 +0000
Subject: [PATCH 23/59] fix: do not escape code twice in the restricted mode

---
 src/block.rs  |  6 +++---
 src/parser.rs | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index f32c861..0d2fbbb 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -6,7 +6,7 @@ use fancy_regex::Captures;
 use crate::regextra::{fregex, Regex};
 use crate::htmltools::quoteattr;
 use crate::regex_snips::{SNIP_SPACE, SNIP_DIGIT, CLS_RE_S, VALIGN_RE_S};
-use crate::htmltools::{generate_tag, encode_html};
+use crate::htmltools::generate_tag;
 use crate::parser::ParserState;
 
 
@@ -402,7 +402,7 @@ impl Block {
                 outer_closing = "\n</blockquote>".into();
             },
             "bc" => {
-                new_content = ps.shelve(encode_html(&new_content, true, false)).into();
+                new_content = ps.shelve(ps.encode_code(&new_content, true)).into();
                 let mut inner_atts = BlockHtmlAttributes::default();
                 if let Some(lang) = attributes.lang.clone() {
                     attributes.lang = None;
@@ -419,7 +419,7 @@ impl Block {
                 outer_closing = "</code></pre>".into();
             }
             "pre" => {
-                new_content = ps.shelve(encode_html(&new_content, true, false)).into();
+                new_content = ps.shelve(ps.encode_code(&new_content, true)).into();
                 outer_opening = format!("<pre{}>", attributes.html_attrs().to_string());
                 outer_closing = "</pre>".into();
             },
diff --git a/src/parser.rs b/src/parser.rs
index 0fb028b..58dd399 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -471,12 +471,22 @@ impl <'t> ParserState<'t> {
         step2.into_owned()
     }
 
+    /// Escapes the text of a code fragment. In the restricted mode
+    /// the input has already been escaped once.
+    pub(crate) fn encode_code(&self, text: &str, quotes: bool) -> String {
+        if self.textile.restricted {
+            encode_html(&reverse_encode_html(text), quotes, false)
+        } else {
+            encode_html(text, quotes, false)
+        }
+    }
+
     pub fn code(&mut self, text: &str) -> String {
         fn f_code(parser: &mut ParserState, cap: &Captures) -> String {
             let (before, text) = (&cap[1], &cap[2]);
             let after = unwrap_or_empty(cap.get(3));
             let (before, after) = get_special_options(before, after);
-            let text = encode_html(text, false, false);
+            let text = parser.encode_code(text, false);
             String::from(before) + &parser.shelve(format!("<code>{0}</code>", text)) + after
         }
 
@@ -485,7 +495,7 @@ impl <'t> ParserState<'t> {
             let after = unwrap_or_empty(cap.get(3));
             let (before, after) = get_special_options(before, after);
             // text needs to be escaped
-            let text = encode_html(text, true, false);
+            let text = parser.encode_code(text, true);
             String::from(before) + "<pre>" + &parser.shelve(text) + "</pre>" + after
         }
 
-- 
2.43.0


From 0d99e6caa28ed33cbedb17018e9820442b995ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:59 +0000
Subject: [PATCH 24/59] fix: do not escape attribute texts twice in the
 restricted mode

---
 src/parser.rs | 17 ++++++++++++++---
 src/table.rs  |  2 +-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 58dd399..94299d8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -428,6 +428,17 @@ impl <'t> ParserState<'t> {
         new_text
     }
 
+    /// Prepares a part of the input to become a value of an HTML attribute,
+    /// which will be escaped (again, in the restricted mode) later.
+    pub(crate) fn attribute_text(&self, text: &str) -> String {
+        let text = self.expand_tokens(text);
+        if self.textile.restricted {
+            reverse_encode_html(&text).into_owned()
+        } else {
+            text
+        }
+    }
+
     fn retrieve_urls<'a>(&mut self, text: &'a str) -> Cow<'a, str> {
         let mut regex_cache = self.textile.regex_cache.borrow_mut();
         let pattern = regex_cache
@@ -629,7 +640,7 @@ impl <'t> ParserState<'t> {
                 }
             }
 
-            let optional_title = cap.get(4).map(|m| self.expand_tokens(m.as_str()));
+            let optional_title = cap.get(4).map(|m| self.attribute_text(m.as_str()));
             atts.insert("alt", optional_title.clone().unwrap_or_default());
 
             if !UrlBits::parse(url).is_relative() && self.textile.get_sizes {
@@ -1519,7 +1530,7 @@ impl <'t> ParserState<'t> {
             let mut attributes = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
             attributes.insert("href", url_id);
             if !title.is_empty() {
-                attributes.insert("title", self.expand_tokens(title));
+                attributes.insert("title", self.attribute_text(title));
             }
             if let Some(ref rel) = self.textile.rel {
                 attributes.insert("rel", rel.clone());
@@ -1608,7 +1619,7 @@ impl <'t> ParserState<'t> {
             if let Some(cite) = cap.get(4) {
                 let cite = cite.as_str().trim();
                 if self.is_valid_url(&self.unrestrict_url(cite)) {
-                    html_atts.insert("cite", self.expand_tokens(cite));
+                    html_atts.insert("cite", self.attribute_text(cite));
                 }
             }
             let content = &cap[5];
diff --git a/src/table.rs b/src/table.rs
index 21e1e12..3195066 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -102,7 +102,7 @@ pub(crate) fn process_table<'t>(
 
     if let Some(s) = summary {
         if !s.is_empty() {
-            html_attrs.insert("summary", parser.expand_tokens(s.trim()));
+            html_attrs.insert("summary", parser.attribute_text(s.trim()));
         }
     }
     let mut caption = String::new();
-- 
2.43.0


From 9b461adf1f6848d7c28b2dadd505b08683e92145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:50 +0000
Subject: [PATCH 25/59] fix: make set_raw_blocks leave the blocks wrapped in
 unknown tags as they are

---
 src/htmltools.rs | 45 +++++++++++++++++++++++++++++----------------
 src/parser.rs    |  5 +++--
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/htmltools.rs b/src/htmltools.rs
index ffff131..f14fb4a 100644
--- a/src/htmltools.rs
+++ b/src/htmltools.rs
@@ -270,24 +270,37 @@ pub(crate) fn unescape(s: &str) -> Cow<str> {
 }
 
 
-pub(crate) fn has_raw_text(text: &str) -> bool {
-    const PHRASING_CONTENT: &str = concat!(
-        "abbr|acronym|area|audio|a|bdo|br|button|b|canvas|cite|code|command|",
-        "data|datalist|del|dfn|em|embed|iframe|img|input|ins|i|kbd|keygen|",
-        "label|link|map|mark|math|meta|meter|noscript|object|output|progress|",
-        "q|ruby|samp|script|select|small|span|strong|sub|sup|svg|textarea|",
-        "time|var|video|wbr",
-    );
-    lazy_static! {
-        static ref UNWRAPPABLE_RE: Regex = fregex!(
-            &format!(r"(?si)</?(?:{0})(?:\s[^<>]*?|/?)>", BLOCK_CONTENT));
-        static ref WRAPPED_RE: Regex = fregex!(
-            r"(?si)^</?([^\s<>/]+)[^<>]*?>(?:.*</\1\s*?>)?$");
-        static ref PHRASING_RE: Regex = fregex!(
-            &format!(r"(?i)^(?:{0})$", PHRASING_CONTENT));
-    }
+const PHRASING_CONTENT: &str = concat!(
+    "abbr|acronym|area|audio|a|bdo|br|button|b|canvas|cite|code|command|",
+    "data|datalist|del|dfn|em|embed|iframe|img|input|ins|i|kbd|keygen|",
+    "label|link|map|mark|math|meta|meter|noscript|object|output|progress|",
+    "q|ruby|samp|script|select|small|span|strong|sub|sup|svg|textarea|",
+    "time|var|video|wbr",
+);
+lazy_static! {
+    static ref UNWRAPPABLE_RE: Regex = fregex!(
+        &format!(r"(?si)</?(?:{0})(?:\s[^<>]*?|/?)>", BLOCK_CONTENT));
+    static ref WRAPPED_RE: Regex = fregex!(
+        r"(?si)^</?([^\s<>/]+)[^<>]*?>(?:.*</\1\s*?>)?$");
+    static ref PHRASING_RE: Regex = fregex!(
+        &format!(r"(?i)^(?:{0})$", PHRASING_CONTENT));
+    static ref BLOCK_RE: Regex = fregex!(
+        &format!(r"(?i)^(?:{0})$", BLOCK_CONTENT));
+}
 
+/// Checks if the whole text is wrapped in a tag which is neither
+/// a block nor a phrasing HTML tag.
+pub(crate) fn is_raw_block(text: &str) -> bool {
+    match WRAPPED_RE.captures(text) {
+        Ok(Some(m)) => {
+            !PHRASING_RE.is_match(&m[1]).unwrap_or_default()
+                && !BLOCK_RE.is_match(&m[1]).unwrap_or_default()
+        },
+        _ => false,
+    }
+}
 
+pub(crate) fn has_raw_text(text: &str) -> bool {
     if UNWRAPPABLE_RE.is_match(text).unwrap_or_default()
             || DIVIDER_RE.is_match(text).unwrap_or_default() {
         false
diff --git a/src/parser.rs b/src/parser.rs
index 94299d8..aac1fc5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,7 +11,7 @@ use fancy_regex::{Captures, Replacer, Match};
 
 use crate::charcounter::CharCounter;
 use crate::regextra::{Regex, split_with_capture, fregex, multi_replace, multi_replace_with_one, unwrap_or_empty};
-use crate::htmltools::{generate_tag, encode_html, join_html_attributes, unescape, has_raw_text, reverse_encode_html};
+use crate::htmltools::{generate_tag, encode_html, join_html_attributes, unescape, has_raw_text, is_raw_block, reverse_encode_html};
 use crate::table::{process_table, TABLE_SPAN_RE_S};
 use crate::urlutils::{UrlBits, UrlString};
 use crate::block::{Block, BlockAttributes, BlockHtmlAttributes};
@@ -1756,7 +1756,8 @@ impl <'t> ParserState<'t> {
                     + &bdata.inner_closing
                     + if ext.is_empty() { &bdata.outer_closing } else { "" }
             } else {
-                let raw_block = DIVIDER_RE.is_match(block).unwrap_or_default();
+                let raw_block = DIVIDER_RE.is_match(block).unwrap_or_default()
+                    || (self.textile.raw_block_enabled && is_raw_block(block));
                 if !ext.is_empty() || (!block.starts_with(' ') && !raw_block) {
                     let bdata =  Block::new(tag, atts, cite, block, self);
                     eat = bdata.eat;
-- 
2.43.0


From 087a0dd1a84939d531c5c0b9f8b970aeae0b7788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:26 +0000
Subject: [PATCH 26/59] fix: the text of an ignored style does not affect
 alignment and padding in the restricted mode

---
 src/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 0d2fbbb..9591051 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -148,14 +148,14 @@ impl BlockAttributes {
             }
         }
 
-        if !restricted {
-            if let Ok(Some(m)) = ATTR_STYLE_RE.captures(&matched) {
+        if let Ok(Some(m)) = ATTR_STYLE_RE.captures(&matched) {
+            if !restricted {
                 style.extend(
                     m[1].trim_end_matches(';')
                         .split(';')
                         .map(|n| n.trim().to_owned()));
-                matched = matched.replace(&m[0], "");
             }
+            matched = matched.replace(&m[0], "");
         }
 
         let lang = match ATTR_LANG_RE.captures(&matched) {
-- 
2.43.0


From bcaf7cbba3425b1442173c9f5d6d42ebd026767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:08 +0000
Subject: [PATCH 27/59] fix: slashes within the classes and styles of table
 cells are not rowspans

---
 src/block.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 9591051..6b37efa 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -129,13 +129,6 @@ impl BlockAttributes {
         }
 
         let mut matched = block_attributes.to_owned();
-        let (colspan, rowspan) = if element == Some("td") {
-            (COLSPAN_RE.captures(&matched).unwrap_or(None).map(|m| m[1].to_owned()),
-             ROWSPAN_RE.captures(&matched).unwrap_or(None).map(|m| m[1].to_owned()))
-        } else {
-            (None, None)
-        };
-
         if element == Some("td") || element == Some("tr") {
             if let Ok(Some(m)) = ATTR_VALIGN_RE.find(&matched) {
                 let alignment = match m.as_str() {
@@ -209,6 +202,14 @@ impl BlockAttributes {
             _ => (None, None)
         };
 
+        // Styles and classes are already gone, they may contain slashes too
+        let (colspan, rowspan) = if element == Some("td") {
+            (COLSPAN_RE.captures(&matched).unwrap_or(None).map(|m| m[1].to_owned()),
+             ROWSPAN_RE.captures(&matched).unwrap_or(None).map(|m| m[1].to_owned()))
+        } else {
+            (None, None)
+        };
+
         if let Ok(Some(m)) = ATTR_PADDING_LEFT_RE.captures(&matched) {
             style.push(format!("padding-left:{}em", m[1].len()));
             matched = matched.replace(&m[0], "");
-- 
2.43.0


From 6afd00d69902662b355ca230dfab466d50350dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:01 +0000
Subject: [PATCH 28/59] fix: the search for the start of a link ends when there
 are no more quotes

---
 src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index aac1fc5..f85ad98 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -748,9 +748,9 @@ impl <'t> ParserState<'t> {
                     if END_NOSPACE_RE.find(possibility).unwrap_or(None).is_some() {
                         balanced += 1;
                     }
-                    if let Some(p) = possible_start_quotes.pop() {
-                        possibility = p;
-                    }
+                    // If there are no more possible starting segments,
+                    // the search will end after the next (empty) one
+                    possibility = possible_start_quotes.pop().unwrap_or_default();
                 } else {
                     // If quotes occur next to each other, we get zero
                     // length strings.  eg. ...""Open the door,
-- 
2.43.0


From 34d880a665566ed45492a0ed83ba596b7c4f3fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:17 +0000
Subject: [PATCH 29/59] fix: markup within the attributes of tables and lists
 is not processed

---
 src/parser.rs | 23 ++++++++++++++++++-----
 src/table.rs  | 44 ++++++++++++++++++++++++++------------------
 2 files changed, 44 insertions(+), 23 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f85ad98..0f4a2d8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -389,6 +389,17 @@ impl <'t> ParserState<'t> {
         item_id
     }
 
+    /// Prepares the attributes to be put into an opening tag within a text
+    /// which hasn't been fully processed yet, and so keeps them intact.
+    pub fn shelve_attributes(&mut self, attributes: &[(String, String)]) -> String {
+        if attributes.is_empty() {
+            return String::new();
+        }
+        let mut result = String::new();
+        join_html_attributes(&mut result, attributes);
+        String::from(" ") + &self.shelve(result.trim_start().to_owned())
+    }
+
     pub fn shelve_url(&mut self, text: UrlString) -> String {
         let escaped_url = text.to_html_string();
         self.ref_index += 1;
@@ -850,9 +861,10 @@ impl <'t> ParserState<'t> {
                 if let Ok(Some(m)) = ATTR_CONTENT_RE.captures(line) {
                     let atts = &m[1];
                     let content = m[2].trim();
-                    let html_atts_str: String = BlockAttributes
+                    let html_atts = BlockAttributes
                         ::parse(atts, None, true, self.textile.restricted)
-                        .into();
+                        .html_attrs();
+                    let html_atts_str = self.shelve_attributes(&html_atts);
 
                     let xm_capture = XM_RE.captures(content);
                     let (term, definition) = if let Ok(Some(ref xm)) = xm_capture {
@@ -1013,22 +1025,23 @@ impl <'t> ParserState<'t> {
                     }
                 }
                 let tabs = "\t".repeat(item.level - 1);
+                let atts = self.shelve_attributes(&atts);
                 let mut line = if !lists.contains_key(item.tl) {
                     lists.insert(item.tl, 1);
                     if show_item {
                         format!(
                             "{0}<{1}{2}>\n{0}\t<{3}>{4}",
-                            tabs, ltype, atts.to_string(),
+                            tabs, ltype, atts,
                             litem, content)
                     } else {
                         format!(
                             "{0}<{1}{2}>",
-                            tabs, ltype, atts.to_string())
+                            tabs, ltype, atts)
                     }
                 } else if show_item {
                     format!(
                         "{0}\t<{1}{2}>{3}",
-                        tabs, litem, atts.to_string(), content)
+                        tabs, litem, atts, content)
                 } else {
                     String::new()
                 };
diff --git a/src/table.rs b/src/table.rs
index 3195066..5bb594c 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -5,7 +5,7 @@ use lazy_static::lazy_static;
 use crate::block::{BlockAttributes, BlockHtmlAttributes};
 use crate::regextra::{split_with_capture, fregex, Regex};
 use crate::regex_snips::{ALIGN_RE_S, CLS_RE_S, VALIGN_RE_S, SNIP_SPACE, PNCT_RE_S};
-use crate::htmltools::generate_tag;
+use crate::parser::ParserState;
 
 
 const COLSPAN_RE_S: &str = r"(?:\\\d+)";
@@ -15,9 +15,16 @@ lazy_static! {
         r"(?:{0}|{1})*", COLSPAN_RE_S, ROWSPAN_RE_S);
 }
 
-fn process_caption(capts: &str, cap: &str, restricted: bool) -> String {
-    let html_attributes = BlockAttributes::parse(capts, None, true, restricted).html_attrs();
-    let tag = generate_tag("caption", Some(cap.trim()), &html_attributes);
+// The tags of a table are a part of the text that is still going to be processed,
+// so their attributes have to be put aside.
+fn table_tag(parser: &mut ParserState, tag: &str, content: &str, attributes: &[(String, String)]) -> String {
+    let attributes = parser.shelve_attributes(attributes);
+    format!("<{tag}{attributes}>{content}</{tag}>")
+}
+
+fn process_caption(capts: &str, cap: &str, parser: &mut ParserState) -> String {
+    let html_attributes = BlockAttributes::parse(capts, None, true, parser.textile.restricted).html_attrs();
+    let tag = table_tag(parser, "caption", cap.trim(), &html_attributes);
     format!("\t{0}\n", tag)
 }
 
@@ -32,9 +39,9 @@ impl TableSection {
         TableSection { tag, attributes, rows: Default::default() }
     }
 
-    fn process(self) -> String {
+    fn process(self, parser: &mut ParserState) -> String {
         let content = self.rows.join("") + "\n\t";
-        generate_tag(&self.tag, Some(&content), &self.attributes.html_attrs())
+        table_tag(parser, &self.tag, &content, &self.attributes.html_attrs())
     }
 }
 
@@ -51,17 +58,17 @@ impl Row {
         }
     }
 
-    fn process(&self) -> String {
+    fn process(&self, parser: &mut ParserState) -> String {
         let cell_data = self.cells.join("") + "\n\t\t";
         format!(
             "\n\t\t{}",
-            generate_tag("tr", Some(&cell_data), &self.attributes))
+            table_tag(parser, "tr", &cell_data, &self.attributes))
     }
 }
 
 
 pub(crate) fn process_table<'t>(
-    parser: &mut crate::parser::ParserState,
+    parser: &mut ParserState,
     tatts: &'t str,
     rows_str: &'t str,
     summary: Option<&'t str>
@@ -126,7 +133,7 @@ pub(crate) fn process_table<'t>(
                     process_caption(
                         &cmtch["capts"],
                         &cmtch["cap"],
-                        parser.textile.restricted));
+                        parser));
                 let new_row = cmtch["row"].trim_start();
                 if new_row.is_empty() {continue} else {new_row.to_owned().into()}
             } else {
@@ -142,9 +149,10 @@ pub(crate) fn process_table<'t>(
             // will be a newline in the middle of $row somewhere.
             let cols = &gmtch[1].replace('.', "");
             for (idx, col) in cols.split('|').enumerate() {
-                let group_atts: String = BlockAttributes
+                let group_atts = BlockAttributes
                     ::parse(col.trim(), Some("col"), true, parser.textile.restricted)
-                    .into();
+                    .html_attrs();
+                let group_atts = parser.shelve_attributes(&group_atts);
                 colgroup.push_str("\t<col");
                 if idx == 0 {
                     colgroup.push_str("group");
@@ -174,7 +182,7 @@ pub(crate) fn process_table<'t>(
                 // we're about to start a new group, so process the current one
                 // and add it to the output
                 if let Some(rgrp_data) = rgrp {
-                    groups.push(format!("\n\t{0}", rgrp_data.process()));
+                    groups.push(format!("\n\t{0}", rgrp_data.process(parser)));
                 }
                 let section_tag = match grpname.as_str() {
                     "^" => "thead",
@@ -237,7 +245,7 @@ pub(crate) fn process_table<'t>(
             };
 
             // create a cell
-            let c = generate_tag(ctag, Some(&cell), &cell_atts);
+            let c = table_tag(parser, ctag, &cell, &cell_atts);
             let cline_tag = format!("\n\t\t\t{0}", c);
             // add the cell to the row
             r.cells.push(parser.do_tag_br(ctag, &cline_tag).into_owned());
@@ -245,19 +253,19 @@ pub(crate) fn process_table<'t>(
         // if we're in a group, add it to the group's rows, else add it
         // directly to the content
         if let Some(ref mut rgrp_data) = rgrp {
-            rgrp_data.rows.push(r.process());
+            rgrp_data.rows.push(r.process(parser));
         } else {
-            content.push(r.process());
+            content.push(r.process(parser));
         }
     }
     // if there's still an rgrp, process it and add it to the output
     if let Some(rgrp_data) = rgrp {
-        groups.push(format!("\n\t{0}", rgrp_data.process()));
+        groups.push(format!("\n\t{0}", rgrp_data.process(parser)));
     }
 
     let tag_content = format!(
         "{0}{1}{2}{3}\n\t",
         caption, colgroup, groups.join(""), content.join(""));
-    let tbl = generate_tag("table", Some(&tag_content), &html_attrs);
+    let tbl = table_tag(parser, "table", &tag_content, &html_attrs);
     format!("\t{0}\n\n", tbl)
 }
-- 
2.43.0


From 0cf44be9b5880f3372aa895959073f4aa19559f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:41 +0000
Subject: [PATCH 30/59] fix: no line breaks within the titles of acronyms

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0f4a2d8..e162b29 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1143,7 +1143,8 @@ impl <'t> ParserState<'t> {
             static ref TAG_RE: Regex = fregex!(r"(?s)<(p|h[1-6])([^>]*?)>(.*)(</\1>)");
             static ref BR_RE: Regex = fregex!(
                 &format!(r"(?i)<br[ ]*/?>{0}*\n(?![{0}|])", SNIP_SPACE));
-            static ref NEWLINE_RE: Regex = fregex!(r"\n(?![\s|])");
+            // not within a tag, whose attributes may contain newlines
+            static ref NEWLINE_RE: Regex = fregex!(r"\n(?![\s|]|[^<>]*>)");
         }
 
         let f_do_p_br = |cap: &Captures| -> String {
-- 
2.43.0


From b76c88002f033b21181c14d38a03ffac087dbd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:27 +0000
Subject: [PATCH 31/59] fix: a caret within the class or style of a footnote is
 not a back link

---
 src/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 6b37efa..2929338 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -304,6 +304,7 @@ impl Block {
         lazy_static! {
             static ref FNID_RE: Regex = fregex!(&format!(r"fn(?P<fnid>{0}+)", SNIP_DIGIT));
             static ref CODE_LANG_RE: Regex = fregex!(r"^[a-zA-Z0-9_-]+$");
+            static ref BRACKETED_RE: Regex = fregex!(r"\([^)]*\)|\{[^}]*\}|\[[^\]]*\]");
         }
         let cite = cite.map(|v| v.as_ref().to_owned());
         let mut new_content = Cow::Borrowed(content);
@@ -372,7 +373,8 @@ impl Block {
                 sup_html_attrs.insert("id", format!("fn{}", fnid));
             }
 
-            let sup = if !attrs.contains('^') {
+            let has_backlink = BRACKETED_RE.replace_all(attrs, "").contains('^');
+            let sup = if !has_backlink {
                 generate_tag("sup", Some(m_fnid), &sup_html_attrs)
             } else {
                 let fnrev = generate_tag(
-- 
2.43.0


From afc652c1719339d4643b803f6de85d44a8a69dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:22 +0000
Subject: [PATCH 32/59] fix: citations of spans that aren't valid URLs are made
 inoperable like links

---
 src/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e162b29..5e84535 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1631,9 +1631,15 @@ impl <'t> ParserState<'t> {
             let atts = &cap[3];
             let mut html_atts = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
             if let Some(cite) = cap.get(4) {
-                let cite = cite.as_str().trim();
-                if self.is_valid_url(&self.unrestrict_url(cite)) {
-                    html_atts.insert("cite", self.attribute_text(cite));
+                let url = self.unrestrict_url(cite.as_str().trim());
+                if self.is_valid_url(&url) {
+                    let uri_parts = UrlBits::parse(&url);
+                    let cite = if uri_parts.is_relative() {
+                        uri_parts.to_string()
+                    } else {
+                        url.into_owned()
+                    };
+                    html_atts.insert("cite", cite);
                 }
             }
             let content = &cap[5];
-- 
2.43.0


From 05602662b0c63d9276fcb305b76457ac69730f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:43 +0000
Subject: [PATCH 33/59] fix: the URL of a link ends where another link starts

---
 src/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5e84535..6a71ff9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1387,6 +1387,16 @@ impl <'t> ParserState<'t> {
             } else {
                 ("", inner.as_str(), "")
             };
+            // The URL ends where another link starts.
+            let next_link = match url.find(&needle) {
+                Some(pos) => {
+                    let (this, next) = url.split_at(
+                        if url[..pos].ends_with('[') { pos - 1 } else { pos });
+                    url = this;
+                    next
+                },
+                None => ""
+            };
             let mut pop = String::new();
             let mut tight = String::new();
             let csb_count: usize = url.matches(']').count();
@@ -1512,7 +1522,8 @@ impl <'t> ParserState<'t> {
             let scheme_in_list = allowed_schemes.contains(&(uri_parts.scheme()));
             let is_valid_url = uri_parts.scheme().is_empty() || scheme_in_list;
             if !is_valid_url {
-                return in_.replace(&format!("{0}linkStartMarker:", self.textile.uid), "");
+                let link = &in_[..in_.len() - next_link.len()];
+                return link.replace(&needle, "") + next_link;
             }
 
             let text: Cow<str> = if text == "$" {
@@ -1551,7 +1562,7 @@ impl <'t> ParserState<'t> {
             }
             let a_text = generate_tag("a", Some(&text), &attributes);
             let a_shelf_id = self.shelve(a_text);
-            let result = format!("{0}{1}{2}{3}", pre, a_shelf_id, pop, tight);
+            let result = format!("{0}{1}{2}{3}{4}", pre, a_shelf_id, pop, tight, next_link);
             result
         };
 
-- 
2.43.0


From d8e4827d4cc33cdb1da913fe914f1bcb46abe12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:55 +0000
Subject: [PATCH 34/59] fix: markup within the attributes of phrases, links and
 images is quoted

---
 src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6a71ff9..e4b11bf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -624,7 +624,7 @@ impl <'t> ParserState<'t> {
                 }
             }
             let mut atts = if let Some(attributes) = cap.get(2) {
-                BlockAttributes::parse(attributes.as_str(), None, true, self.textile.restricted).html_attrs()
+                BlockAttributes::parse(&self.expand_tokens(attributes.as_str()), None, true, self.textile.restricted).html_attrs()
             } else {
                 BlockHtmlAttributes::default()
             };
@@ -1217,7 +1217,7 @@ impl <'t> ParserState<'t> {
         // in the order we process the refs...
         let f_parse_note_refs = |cap: &Captures| -> String {
             let (atts, label, nolink) = (&cap[1], &cap[2], &cap[3]);
-            let html_atts = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
+            let html_atts = BlockAttributes::parse(&self.expand_tokens(atts), None, true, self.textile.restricted).html_attrs();
 
             // Assign a sequence number to this reference if there isn't one already
             let num = if let Some(NoteInfo{seq: Some(num), ..}) = self.notes.get(label) {
@@ -1552,7 +1552,7 @@ impl <'t> ParserState<'t> {
             let normalized_url = uri_parts.to_string();
             let url_id = self.shelve_url(
                 UrlString::Normalized(normalized_url.into()));
-            let mut attributes = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
+            let mut attributes = BlockAttributes::parse(&self.expand_tokens(atts), None, true, self.textile.restricted).html_attrs();
             attributes.insert("href", url_id);
             if !title.is_empty() {
                 attributes.insert("title", self.attribute_text(title));
@@ -1640,7 +1640,7 @@ impl <'t> ParserState<'t> {
                 _ => unreachable!("Not allowed by the regex")
             };
             let atts = &cap[3];
-            let mut html_atts = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
+            let mut html_atts = BlockAttributes::parse(&self.expand_tokens(atts), None, true, self.textile.restricted).html_attrs();
             if let Some(cite) = cap.get(4) {
                 let url = self.unrestrict_url(cite.as_str().trim());
                 if self.is_valid_url(&url) {
-- 
2.43.0


From 67cdf91fc562f2216656ef35acf3e46b553cd832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:45 +0000
Subject: [PATCH 35/59] fix: a citation doesn't tear apart the markup of
 another phrase

---
 src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index e4b11bf..e206931 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1639,6 +1639,12 @@ impl <'t> ParserState<'t> {
                 "^" => "sup",
                 _ => unreachable!("Not allowed by the regex")
             };
+            // A citation must not tear apart the markup of another phrase.
+            if cap.get(4).map_or(false, |cite| {
+                cite.as_str().contains(&self.textile.uid) && cite.as_str().trim().ends_with(":ospan")
+            }) {
+                return cap[0].to_owned();
+            }
             let atts = &cap[3];
             let mut html_atts = BlockAttributes::parse(&self.expand_tokens(atts), None, true, self.textile.restricted).html_attrs();
             if let Some(cite) = cap.get(4) {
-- 
2.43.0


From 07515a59d5518f4e685167c37d048bbfc60eeaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:23 +0000
Subject: [PATCH 36/59] fix: the marks of capitals do not leak through
 attributes

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e206931..b6ce207 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -436,7 +436,7 @@ impl <'t> ParserState<'t> {
                 .replace(&format!(" {uid}{id}:cspan"), value)
                 .replace(&format!("{uid}{id}:url"), value);
         }
-        new_text
+        new_text.replace(&format!("{uid}:glyph:"), "")
     }
 
     /// Prepares a part of the input to become a value of an HTML attribute,
-- 
2.43.0


From c540bcfe7f02622fce010d6e71abef7e386a695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:57 +0000
Subject: [PATCH 37/59] fix: aliases with special characters in their names are
 found

---
 src/parser.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b6ce207..5b1413a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -466,7 +466,7 @@ impl <'t> ParserState<'t> {
                     let url = self.ref_cache.get(&key).cloned().unwrap_or_default();
                     if url.is_empty() {
                         url
-                    } else if let Some(rurl) = self.urlrefs.get(&url) {
+                    } else if let Some(rurl) = self.urlrefs.get(reverse_encode_html(&url).as_ref()) {
                         rurl.to_html_string()
                     } else {
                         url
@@ -584,11 +584,9 @@ impl <'t> ParserState<'t> {
             &UNRESTRICTED_URLREF_RE
         };
         urlref_re.replace_all(text, |cap: &Captures| -> &str {
-            let flag = &cap[1];
+            let flag = self.unrestrict_url(&cap[1]).into_owned();
             let url = self.unrestrict_url(&cap[2]).into_owned();
-            self.urlrefs.insert(
-                flag.to_string(),
-                url.into());
+            self.urlrefs.insert(flag, url.into());
             ""
         })
     }
-- 
2.43.0


From 5e68e45143a5bde2bb00410c0d494387340a27d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:42 +0000
Subject: [PATCH 38/59] fix: lines starting with a dash are kept in definition
 lists

---
 src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5b1413a..39cd5c1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -840,9 +840,11 @@ impl <'t> ParserState<'t> {
     pub(crate) fn redcloth_list<'a>(&mut self, text: &'a str) -> Cow<'a, str> {
         lazy_static! {
             static ref PATTERN: Regex = fregex!(
-                &format!(r"(?ms)^([-]+{0}[ .].*:=.*)$(?![^-])", *CLS_RE_S));
+                &format!(r"(?ms)^([-]+{0}\.? .*:=.*)$(?![^-])", *CLS_RE_S));
+            // Only the start of another item splits the list, any other line
+            // continues the current item
             static ref SPLITTER: Regex = fregex!(
-                r"(?m)\n(?=[-])");
+                &format!(r"(?m)\n(?=[-]+{0}\.? )", *CLS_RE_S));
 
             // parses the attributes and the content
             static ref ATTR_CONTENT_RE: Regex = fregex!(
-- 
2.43.0


From 52fca1c4c94f25fe47e2812947944baf7601c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:13 +0000
Subject: [PATCH 39/59] fix: line breaks in the first terms of a definition
 list

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 39cd5c1..d96cc22 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1067,7 +1067,11 @@ impl <'t> ParserState<'t> {
                 prev = Some(item);
                 out.push(line);
             }
-            let merged_out = out.join("\n");
+            let mut merged_out = out.join("\n");
+            if litem == "dd" {
+                // the terms before the first definition
+                merged_out = self.do_tag_br("dt", &merged_out).into_owned();
+            }
             self.do_tag_br(litem, &merged_out).into_owned()
         };
 
-- 
2.43.0


From cba6ebde69d8abe787b91f74545eafed4a2b8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:04 +0000
Subject: [PATCH 40/59] fix: another kind of list at the same level is a list
 of its own

---
 src/parser.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d96cc22..e3a0003 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1000,7 +1000,7 @@ impl <'t> ParserState<'t> {
                 // let mut start: Option<usize> = None;
                 if ltype == "ol" {
                     let start_value = self.ol_starts.entry(item.tl.to_string()).or_insert(1);
-                    if prev.map(|p| item.level > p.level).unwrap_or(true) {
+                    if !lists.contains_key(item.tl) {
                         if item.st.is_empty() {
                             *start_value = 1;
                         } else if item.st != "_" {
@@ -1050,12 +1050,24 @@ impl <'t> ParserState<'t> {
                     line += &format!("</{0}>", litem);
                 }
 
-                for (k, v) in lists.clone().iter().rev() {
+                let open_lists = lists.clone();
+                for (pos, (k, v)) in open_lists.iter().enumerate().rev() {
                     let indent = k.len();
-                    if next.map(|n| indent > n.level).unwrap_or(true) {
+                    // A list of another kind at the same level is another list
+                    let is_replaced = next
+                        .map(|n| indent == n.level && list_type(k) != list_type(n.tl))
+                        .unwrap_or(false);
+                    if is_replaced || next.map(|n| indent > n.level).unwrap_or(true) {
                         if *v != 2 {
                             line += &format!("\n{0}</{1}>", tabs, list_type(k));
-                            if indent > 1 {
+                            // The item containing the list ends with it,
+                            // unless another list follows within that item
+                            let is_item_over = pos > 0
+                                && next
+                                    .zip(open_lists.get_index(pos - 1))
+                                    .map(|(n, (parent, _))| parent.len() >= n.level)
+                                    .unwrap_or(true);
+                            if is_item_over {
                                 line += "</";
                                 line += litem;
                                 line += ">";
@@ -1094,7 +1106,9 @@ impl <'t> ParserState<'t> {
                 return text.into()
             }
             // The <br> is not appropriate to insert after the following prefixes
-            const STOP_PREFIXES: [&str; 6] = ["</dd>", "</dt>", "</li>", "<br/>", "<br>", "<br />"];
+            const STOP_PREFIXES: [&str; 9] = [
+                "</dd>", "</dt>", "</li>", "</dl>", "</ol>", "</ul>",
+                "<br/>", "<br>", "<br />"];
             let mut output = String::with_capacity(text.len() + num_newlines * br.len());
             let mut next_start = 0;
             while let Some(rel_newline_pos) = text[next_start..].find('\n') {
-- 
2.43.0


From 7037ac05bc8d455dc5756bb3d4ba17d5f9452bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:00 +0000
Subject: [PATCH 41/59] fix: dots in the attributes of table columns are kept

---
 src/table.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 5bb594c..9caf92c 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -102,6 +102,9 @@ pub(crate) fn process_table<'t>(
         static ref COLGROUP_RE: Regex = fregex!(
             &format!(r"(?m)^\|:(?P<cols>{s}{a}{c}\. .*)",
                      s=*TABLE_SPAN_RE_S, a=*ALIGN_RE_S, c=*CLS_RE_S));
+        static ref COL_ATTS_RE: Regex = fregex!(
+            &format!(r"^(?P<atts>{s}{a}{c})\.",
+                     s=*TABLE_SPAN_RE_S, a=*ALIGN_RE_S, c=*CLS_RE_S));
         static ref HEADING_RE: Regex = fregex!(
             &format!(r"^_(?={0}|{1})", SNIP_SPACE, PNCT_RE_S));
     }
@@ -147,10 +150,11 @@ pub(crate) fn process_table<'t>(
         let row = if let Ok(Some(gmtch)) = COLGROUP_RE.captures(&row) {
             // Is this colgroup def missing a closing pipe? If so, there
             // will be a newline in the middle of $row somewhere.
-            let cols = &gmtch[1].replace('.', "");
-            for (idx, col) in cols.split('|').enumerate() {
+            for (idx, col) in gmtch[1].split('|').enumerate() {
+                // The dot ending the attributes
+                let col = COL_ATTS_RE.replace(col.trim(), "$atts");
                 let group_atts = BlockAttributes
-                    ::parse(col.trim(), Some("col"), true, parser.textile.restricted)
+                    ::parse(&col, Some("col"), true, parser.textile.restricted)
                     .html_attrs();
                 let group_atts = parser.shelve_attributes(&group_atts);
                 colgroup.push_str("\t<col");
-- 
2.43.0


From 0cb075eae2aa31d5a9766ad17ab3f22b77027c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:47 +0000
Subject: [PATCH 42/59] fix: rows before a group of a table stay before it

---
 src/table.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 9caf92c..4a9bd17 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -119,7 +119,6 @@ pub(crate) fn process_table<'t>(
     let mut colgroup = String::new();
     let mut content = Vec::<String>::new();
     let mut rgrp: Option<TableSection> = None;
-    let mut groups = Vec::<String>::new();
 
     let non_empty_rows =
         split_with_capture(&COMPONENTS_RE, rows_str)
@@ -186,7 +185,7 @@ pub(crate) fn process_table<'t>(
                 // we're about to start a new group, so process the current one
                 // and add it to the output
                 if let Some(rgrp_data) = rgrp {
-                    groups.push(format!("\n\t{0}", rgrp_data.process(parser)));
+                    content.push(format!("\n\t{0}", rgrp_data.process(parser)));
                 }
                 let section_tag = match grpname.as_str() {
                     "^" => "thead",
@@ -264,12 +263,12 @@ pub(crate) fn process_table<'t>(
     }
     // if there's still an rgrp, process it and add it to the output
     if let Some(rgrp_data) = rgrp {
-        groups.push(format!("\n\t{0}", rgrp_data.process(parser)));
+        content.push(format!("\n\t{0}", rgrp_data.process(parser)));
     }
 
     let tag_content = format!(
-        "{0}{1}{2}{3}\n\t",
-        caption, colgroup, groups.join(""), content.join(""));
+        "{0}{1}{2}\n\t",
+        caption, colgroup, content.join(""));
     let tbl = table_tag(parser, "table", &tag_content, &html_attrs);
     format!("\t{0}\n\n", tbl)
 }
-- 
2.43.0


From 43de5fe003f67b4b93ea46f78ebc5eceb359dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:05 +0000
Subject: [PATCH 43/59] fix: text before a table in the same block is kept

---
 src/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e3a0003..730daf9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -826,11 +826,16 @@ impl <'t> ParserState<'t> {
         }
         let text = format!("{0}\n\n", text);
         match PATTERN.captures(&text) {
-            Ok(Some(cap)) => process_table(
-                self,
-                unwrap_or_empty(cap.name("tatts")),
-                &cap["rows"],
-                cap.name("summary").map(|m| m.as_str())).into(),
+            Ok(Some(cap)) => {
+                let table = process_table(
+                    self,
+                    unwrap_or_empty(cap.name("tatts")),
+                    &cap["rows"],
+                    cap.name("summary").map(|m| m.as_str()));
+                // Lines before the table belong to the text
+                let (start, end) = cap.get(0).map(|m| (m.start(), m.end())).unwrap_or_default();
+                [&text[..start], &table, &text[end..]].concat().into()
+            },
             _ => text.into()
         }
     }
-- 
2.43.0


From 23437fdfc14e9de72cafd3179c663b37fd80e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:23 +0000
Subject: [PATCH 44/59] fix: lines of cells are kept in table rows with
 attributes

---
 src/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.rs b/src/table.rs
index 4a9bd17..1ca49fe 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -91,7 +91,7 @@ pub(crate) fn process_table<'t>(
 
 
         static ref RMTCH_RE: Regex = fregex!(
-            &format!(r"^(?P<ratts>{0}{1}\. )(?P<row>.*)",
+            &format!(r"(?s)^(?P<ratts>{0}{1}\. )(?P<row>.*)",
                      *ALIGN_RE_S, *CLS_RE_S));
 
         static ref CMTCH_RE: Regex = fregex!(
-- 
2.43.0


From c511c556a422bf7208483b380a7c4761b7e14b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:57 +0000
Subject: [PATCH 45/59] fix: the width of aligned table columns is kept

---
 src/block.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/block.rs b/src/block.rs
index 2929338..df3177a 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -234,6 +234,7 @@ impl BlockAttributes {
                     "Unexpected block horizontal alignment: {}", value),
             };
             style.push(format!("text-align:{}", alignment));
+            matched = matched.replace(&m[0], "");
         }
 
         let (span, width) = if element == Some("col") {
-- 
2.43.0


From 6d08b31920d3768e3f74e8d4f925c1688d302be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:51 +0000
Subject: [PATCH 46/59] fix: the anchor of a footnote is generated once

---
 src/block.rs  | 4 +++-
 src/parser.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index df3177a..3497b9f 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -367,7 +367,9 @@ impl Block {
             }
 
             // if there's no specified id, use the generated one.
-            if attributes.id.is_none() {
+            if !ps.footnote_anchors.insert(fnid.clone()) {
+                // another block of the same footnote, the anchor is already there
+            } else if attributes.id.is_none() {
                 let fn_tag_id = format!("fn{}", fnid);
                 attributes.id = Some(fn_tag_id);
             } else  {
diff --git a/src/parser.rs b/src/parser.rs
index 730daf9..16f8a20 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,4 +1,4 @@
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::borrow::Cow;
 use std::io::Read;
 use std::time::{SystemTime, UNIX_EPOCH};
@@ -183,6 +183,8 @@ fn make_url_readable(url: &str) -> &str {
 pub(crate) struct ParserState<'t> {
     pub notes: BTreeMap<String, NoteInfo>,
     pub footnotes: IndexMap<String, String>,
+    /// Identifiers of the footnotes which already have an anchor
+    pub footnote_anchors: HashSet<String>,
     shelf: IndexMap<String, String>,
     urlrefs: IndexMap<String, UrlString<'t>>,
     note_index: u32,
@@ -203,6 +205,7 @@ impl <'t> ParserState<'t> {
             textile,
             notes: Default::default(),
             footnotes: Default::default(),
+            footnote_anchors: Default::default(),
             shelf: Default::default(),
             urlrefs: Default::default(),
             note_index: 1,
-- 
2.43.0


From 7e12c9f8803230dbd77299577f8d1677cbfa2b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:27 +0000
Subject: [PATCH 47/59] fix: no empty ids

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 3497b9f..1458837 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -106,7 +106,7 @@ impl BlockAttributes {
             static ref ATTR_STYLE_RE: Regex = fregex!(r"\{([^}]*)\}");
             static ref ATTR_LANG_RE: Regex = fregex!(r"\[([^\]]+)\]");
             static ref ATTR_ACLASS_RE: Regex = fregex!(r"\(([^()]+)\)");
-            static ref CSS_ID_RE: Regex = fregex!(r"^([-a-zA-Z0-9_\.\:]*)$");
+            static ref CSS_ID_RE: Regex = fregex!(r"^([-a-zA-Z0-9_\.\:]+)$");
             static ref ATTR_PADDING_LEFT_RE: Regex = fregex!(r"([(]+)");
             static ref ATTR_PADDING_RIGHT_RE: Regex = fregex!(r"([)]+)");
             static ref ATTR_COL_RE: Regex = fregex!(r"^(?:\\(\d+)\.?)?\s*(\d+)?");
-- 
2.43.0


From a09d85ab1e2bf6de74502136f19add9783cdff35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:59 +0000
Subject: [PATCH 48/59] fix: escape unclosed less-than signs in lists, tables
 and definitions

---
 src/parser.rs      | 12 +++++++-----
 src/regex_snips.rs |  2 ++
 src/table.rs       |  5 +++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 16f8a20..25a5467 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -17,7 +17,7 @@ use crate::urlutils::{UrlBits, UrlString};
 use crate::block::{Block, BlockAttributes, BlockHtmlAttributes};
 use crate::regex_snips::{
     CLS_RE_S, ALIGN_RE_S, SNIP_ACR, SNIP_ABR, SNIP_SPACE, SNIP_DIGIT,
-    SNIP_WRD, SNIP_CUR, SNIP_CHAR, LONE_AMP_RE, PNCT_RE_S, DIVIDER_RE};
+    SNIP_WRD, SNIP_CUR, SNIP_CHAR, LONE_AMP_RE, LONE_LT_RE, PNCT_RE_S, DIVIDER_RE};
 
 const SYMS_RE_S: &str = "¤§µ¶†‡•∗∴◊♠♣♥♦";
 // https://www.unicode.org/reports/tr44/#GC_Values_Table
@@ -893,14 +893,16 @@ impl <'t> ParserState<'t> {
 
                     if !term.is_empty() {
                         let newline_started_def = definition.starts_with('\n');
-                        let mut definition = definition
-                            .trim()
+                        let mut definition = LONE_LT_RE
+                            .replace_all(definition.trim(), "&lt;")
                             .replace('\n', self.textile.proper_br_tag());
 
                         if newline_started_def {
                             definition = format!("<p>{0}</p>", definition);
                         }
-                        let term = term.replace('\n', self.textile.proper_br_tag());
+                        let term = LONE_LT_RE
+                            .replace_all(term, "&lt;")
+                            .replace('\n', self.textile.proper_br_tag());
 
                         let term = self.graf(&term);
                         let definition = self.graf(&definition);
@@ -990,7 +992,7 @@ impl <'t> ParserState<'t> {
             let mut out = Vec::<String>::new();
             let mut litem = "";
             for (index, item) in list_items.iter().enumerate() {
-                let content = item.content.trim();
+                let content = LONE_LT_RE.replace_all(item.content.trim(), "&lt;");
                 let ltype = list_type(item.tl);
                 litem = if item.tl.contains(';') {
                     "dt"
diff --git a/src/regex_snips.rs b/src/regex_snips.rs
index 8d2e380..3c88e7f 100644
--- a/src/regex_snips.rs
+++ b/src/regex_snips.rs
@@ -53,6 +53,8 @@ lazy_static! {
     pub(crate) static ref ALIGN_RE_S: String = format!(r"(?:{0}|{1})*", HALIGN_RE_S, VALIGN_RE_S);
     // identifies standalone ampersands which are not parts of HTML entities
     pub(crate) static ref LONE_AMP_RE: Regex = fregex!(r"(?i)&(?!#[0-9]+;|#x[a-f0-9]+;|[a-z][a-z0-9]*;)");
+    // identifies "<" which looks like a start of a tag, but the tag never ends
+    pub(crate) static ref LONE_LT_RE: Regex = fregex!(r"<(?=[\w/!?])(?![^>\n]*>)");
     pub(crate) static ref DIVIDER_RE: Regex = fregex!(
         r"(?si)^(?:</?(br|hr|img)(?:\s[^<>]*?|/?)>(?:</\1\s*?>)?)+$");
 }
diff --git a/src/table.rs b/src/table.rs
index 1ca49fe..8588d86 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -4,7 +4,7 @@ use lazy_static::lazy_static;
 
 use crate::block::{BlockAttributes, BlockHtmlAttributes};
 use crate::regextra::{split_with_capture, fregex, Regex};
-use crate::regex_snips::{ALIGN_RE_S, CLS_RE_S, VALIGN_RE_S, SNIP_SPACE, PNCT_RE_S};
+use crate::regex_snips::{ALIGN_RE_S, CLS_RE_S, LONE_LT_RE, VALIGN_RE_S, SNIP_SPACE, PNCT_RE_S};
 use crate::parser::ParserState;
 
 
@@ -134,7 +134,7 @@ pub(crate) fn process_table<'t>(
                     "\n{}",
                     process_caption(
                         &cmtch["capts"],
-                        &cmtch["cap"],
+                        &LONE_LT_RE.replace_all(&cmtch["cap"], "&lt;"),
                         parser));
                 let new_row = cmtch["row"].trim_start();
                 if new_row.is_empty() {continue} else {new_row.to_owned().into()}
@@ -248,6 +248,7 @@ pub(crate) fn process_table<'t>(
             };
 
             // create a cell
+            let cell = LONE_LT_RE.replace_all(&cell, "&lt;");
             let c = table_tag(parser, ctag, &cell, &cell_atts);
             let cline_tag = format!("\n\t\t\t{0}", c);
             // add the cell to the row
-- 
2.43.0


From 967c1c7f6f87e3ab45c9815c04648fe2e6a497bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:45 +0000
Subject: [PATCH 49/59] fix: a line end after an exclamation mark in link text
 starts no image

---
 src/parser.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 25a5467..20df8cd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1385,7 +1385,7 @@ impl <'t> ParserState<'t> {
         let mut f_link = |cap: &Captures| -> String {
             let in_ = &cap[0];
             let mut pre = unwrap_or_empty(cap.get(1)).to_owned();
-            let inner = cap[2].replace('\n', self.textile.proper_br_tag());
+            let inner = &cap[2];
             let mut url = &cap[3];
             if inner.is_empty() {
                 return format!(r#"{0}"{1}":{2}"#, pre, inner, url);
@@ -1396,24 +1396,24 @@ impl <'t> ParserState<'t> {
                         concat!(
                             r"^",
                             r"(?P<atts>{0})", // $atts (if any)
-                            r"{1}*", // any optional spaces
+                            r"(?:(?!\n){1})*", // any optional spaces
                             r"(?P<text>",  // $text is...
-                            r"(!.+!)", // an image
+                            r"(!(?s:.+)!)", // an image
                             r"|", //  else...
-                            r".+?", //  link text
+                            r"(?s:.+?)", //  link text
                             r")", // end of $text
                             r"(?:\((?P<title>[^)]+?)\))?",  // $title (if any)
                             r"$"),
                         *CLS_RE_S, SNIP_SPACE));
             }
 
-            let (atts, text, title) = if let Ok(Some(m)) = BLOCK_RE.captures(&inner) {
+            let (atts, text, title) = if let Ok(Some(m)) = BLOCK_RE.captures(inner) {
                 let m_text = unwrap_or_empty(m.name("text"));
                 (unwrap_or_empty(m.name("atts")),
-                 if m_text.is_empty() { inner.as_str() } else { m_text },
+                 if m_text.is_empty() { inner } else { m_text },
                  unwrap_or_empty(m.name("title")))
             } else {
-                ("", inner.as_str(), "")
+                ("", inner, "")
             };
             // The URL ends where another link starts.
             let next_link = match url.find(&needle) {
@@ -1566,13 +1566,15 @@ impl <'t> ParserState<'t> {
                 text.into()
             };
 
-            let text = text.trim();
+            let text = text.trim_matches(|c: char| c.is_whitespace() && c != '\n');
 
             let text = if !self.textile.noimage {
                 self.image(text)
             } else {
                 Cow::Borrowed(text)
             };
+            // after the images, or the break could be taken for one
+            let text = text.replace('\n', self.textile.proper_br_tag());
             let text = self.span(&text);
             let text = self.glyphs(&text);
 
-- 
2.43.0


From c0226df5bacf06318577d8fe7d5d6cff3d693084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:18 +0000
Subject: [PATCH 50/59] fix: malformed images neither panic nor hang the
 conversion

---
 src/parser.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 20df8cd..a01f5b5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -66,8 +66,8 @@ fn get_image_size(url: &str) -> Option<(i64, i64)> {
                 Ok(bytes_fetched) => {
                     if bytes_fetched == 0 { break; }
                     read_total += bytes_fetched;
-                    if let Ok(info) = imageinfo::ImageInfo::from_raw_data(&buffer[..read_total]) {
-                        return Some((info.size.width, info.size.height));
+                    if let Some(size) = read_image_size(&buffer[..read_total]) {
+                        return Some(size);
                     }
                 },
                 Err(_) => {
@@ -79,6 +79,32 @@ fn get_image_size(url: &str) -> Option<(i64, i64)> {
     None
 }
 
+/// The size of the image that starts with `data`, which can't be trusted:
+/// `imageinfo` panics on some malformed images and never returns
+/// for the formats made of boxes when a box claims to be empty.
+fn read_image_size(data: &[u8]) -> Option<(i64, i64)> {
+    let (mut pos, length_at, header) = match (data.get(..4), data.get(4..8)) {
+        (Some(b"icns"), _) => (8, 4, 0),
+        (_, Some(b"jP  ")) => (0, 0, 4),
+        _ => (data.len(), 0, 0),
+    };
+    while let Some(entry) = data.get(pos..).and_then(|d| d.get(..8)) {
+        if entry[header..header + 4] == *b"jp2h" {
+            break;
+        }
+        let length = &entry[length_at..length_at + 4];
+        match u32::from_be_bytes([length[0], length[1], length[2], length[3]]) {
+            0 => return None,
+            length => pos = pos.saturating_add(length as usize),
+        }
+    }
+    let info = std::panic::catch_unwind(|| imageinfo::ImageInfo::from_raw_data(data));
+    match info {
+        Ok(Ok(info)) => Some((info.size.width, info.size.height)),
+        _ => None,
+    }
+}
+
 fn make_glyph_replacers(is_html5: bool) -> [(Regex, &'static str); 22] {
     lazy_static! {
         static ref CUR: String = format!(
-- 
2.43.0


From e6a0587e3c8aadd62b513e74e8b19146313b046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:21 +0000
Subject: [PATCH 51/59] fix: headings and other tags with digits or capitals
 end the URL of a link

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a01f5b5..8efe4f3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1509,7 +1509,7 @@ impl <'t> ParserState<'t> {
                             let url_left: String = url_chars.iter().collect();
 
                             lazy_static! {
-                                static ref RE: Regex = fregex!(r"^(?P<url_chars>.*)(?P<tag></[a-z]+)$");
+                                static ref RE: Regex = fregex!(r"^(?P<url_chars>.*)(?P<tag></[a-zA-Z][a-zA-Z0-9-]*)$");
                             }
                             if let Ok(Some(m)) = RE.captures(&url_left) {
                                 url_chars.splice(.., m["url_chars"].chars());
-- 
2.43.0


From 37a8bf9f214c008cdb0c48a30f602a9e5a6ff213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:52 +0000
Subject: [PATCH 52/59] fix: lists nested in items of another kind close the
 tags they opened

---
 src/parser.rs | 54 +++++++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8efe4f3..c7179ad 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1012,9 +1012,11 @@ impl <'t> ParserState<'t> {
             if list_items.is_empty() || list_items[0].level > 1 {
                 return cap[0].to_owned();
             }
-            let mut prev: Option<&ListItem> = None;
-
-            let mut lists = IndexMap::<&str, usize>::new();
+            // Whether each of the open lists has tags of its own, or shares the ones
+            // of another list of the same kind and level
+            let mut lists = IndexMap::<&str, bool>::new();
+            // Levels and tags of the items containing the open lists
+            let mut open_items = Vec::<(usize, &str)>::new();
             let mut out = Vec::<String>::new();
             let mut litem = "";
             for (index, item) in list_items.iter().enumerate() {
@@ -1034,9 +1036,12 @@ impl <'t> ParserState<'t> {
                     ::parse(item.atts, None, true, self.textile.restricted)
                     .html_attrs();
                 // let mut start: Option<usize> = None;
+                let is_shared = lists
+                    .keys()
+                    .any(|k| k.len() == item.level && list_type(k) == ltype);
                 if ltype == "ol" {
                     let start_value = self.ol_starts.entry(item.tl.to_string()).or_insert(1);
-                    if !lists.contains_key(item.tl) {
+                    if !is_shared {
                         if item.st.is_empty() {
                             *start_value = 1;
                         } else if item.st != "_" {
@@ -1055,15 +1060,13 @@ impl <'t> ParserState<'t> {
                     }
                 }
 
-                if let Some(p) = prev {
-                    if p.tl.contains(';') && item.tl.contains(':') {
-                        lists.insert(item.tl, 2);
-                    }
-                }
                 let tabs = "\t".repeat(item.level - 1);
                 let atts = self.shelve_attributes(&atts);
-                let mut line = if !lists.contains_key(item.tl) {
-                    lists.insert(item.tl, 1);
+                if is_shared {
+                    lists.entry(item.tl).or_insert(false);
+                }
+                let mut line = if !is_shared {
+                    lists.insert(item.tl, true);
                     if show_item {
                         format!(
                             "{0}<{1}{2}>\n{0}\t<{3}>{4}",
@@ -1082,37 +1085,38 @@ impl <'t> ParserState<'t> {
                     String::new()
                 };
 
-                if show_item && next.map(|n| n.level <= item.level).unwrap_or(true) {
-                    line += &format!("</{0}>", litem);
+                if show_item {
+                    if next.map(|n| n.level <= item.level).unwrap_or(true) {
+                        line += &format!("</{0}>", litem);
+                    } else {
+                        open_items.push((item.level, litem));
+                    }
                 }
 
                 let open_lists = lists.clone();
-                for (pos, (k, v)) in open_lists.iter().enumerate().rev() {
+                for (k, has_tags) in open_lists.iter().rev() {
                     let indent = k.len();
                     // A list of another kind at the same level is another list
                     let is_replaced = next
                         .map(|n| indent == n.level && list_type(k) != list_type(n.tl))
                         .unwrap_or(false);
                     if is_replaced || next.map(|n| indent > n.level).unwrap_or(true) {
-                        if *v != 2 {
+                        if *has_tags {
                             line += &format!("\n{0}</{1}>", tabs, list_type(k));
                             // The item containing the list ends with it,
                             // unless another list follows within that item
-                            let is_item_over = pos > 0
-                                && next
-                                    .zip(open_lists.get_index(pos - 1))
-                                    .map(|(n, (parent, _))| parent.len() >= n.level)
-                                    .unwrap_or(true);
-                            if is_item_over {
-                                line += "</";
-                                line += litem;
-                                line += ">";
+                            if let Some((level, tag)) = open_items.last() {
+                                let is_item_over = *level < indent
+                                    && next.map(|n| *level >= n.level).unwrap_or(true);
+                                if is_item_over {
+                                    line += &format!("</{0}>", tag);
+                                    open_items.pop();
+                                }
                             }
                         }
                         lists.shift_remove(k);
                     }
                 }
-                prev = Some(item);
                 out.push(line);
             }
             let mut merged_out = out.join("\n");
-- 
2.43.0


From d041e5bee3c7fddfca2f0c0afa76d4350abb7ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:53 +0000
Subject: [PATCH 53/59] fix: attributes of a phrase or a note reference must
 not tear another phrase

---
 src/parser.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c7179ad..bb71ab7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1275,6 +1275,9 @@ impl <'t> ParserState<'t> {
         // in the order we process the refs...
         let f_parse_note_refs = |cap: &Captures| -> String {
             let (atts, label, nolink) = (&cap[1], &cap[2], &cap[3]);
+            if self.tears_phrase(atts) || self.tears_phrase(label) {
+                return cap[0].to_owned();
+            }
             let html_atts = BlockAttributes::parse(&self.expand_tokens(atts), None, true, self.textile.restricted).html_attrs();
 
             // Assign a sequence number to this reference if there isn't one already
@@ -1699,13 +1702,11 @@ impl <'t> ParserState<'t> {
                 "^" => "sup",
                 _ => unreachable!("Not allowed by the regex")
             };
-            // A citation must not tear apart the markup of another phrase.
-            if cap.get(4).map_or(false, |cite| {
-                cite.as_str().contains(&self.textile.uid) && cite.as_str().trim().ends_with(":ospan")
-            }) {
+            let atts = &cap[3];
+            // Neither a citation nor attributes may tear apart the markup of another phrase.
+            if self.tears_phrase(atts) || cap.get(4).map_or(false, |cite| self.tears_phrase(cite.as_str())) {
                 return cap[0].to_owned();
             }
-            let atts = &cap[3];
             let mut html_atts = BlockAttributes::parse(&self.expand_tokens(atts), None, true, self.textile.restricted).html_attrs();
             if let Some(cite) = cap.get(4) {
                 let url = self.unrestrict_url(cite.as_str().trim());
@@ -1752,6 +1753,16 @@ impl <'t> ParserState<'t> {
         (open_tag_id, close_tag_id)
     }
 
+    /// Checks if the text has only one of the tags of some phrase.
+    fn tears_phrase(&self, text: &str) -> bool {
+        let is_tag = |token: &&str, kind: &str| {
+            token.trim_start_matches(|c: char| c.is_ascii_digit()).starts_with(kind)
+        };
+        let tokens = || text.split(&self.textile.uid).skip(1);
+        tokens().filter(|t| is_tag(t, ":ospan")).count()
+            != tokens().filter(|t| is_tag(t, ":cspan")).count()
+    }
+
     fn retrieve_tags(&self, text: &str) -> String {
         let f_retrieve_tags = |cap: &Captures| -> String {
             let tag_id = cap[1].parse::<u32>().expect("must be an integer");
-- 
2.43.0


From f1f8fdef2fa99122f1ef873b6d3dd20add7444ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:53 +0000
Subject: [PATCH 54/59] fix: attributes of lists and tables do not keep tokens
 of other markup

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index bb71ab7..92ad1ad 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -424,8 +424,12 @@ impl <'t> ParserState<'t> {
         if attributes.is_empty() {
             return String::new();
         }
+        let attributes: Vec<_> = attributes
+            .iter()
+            .map(|(name, value)| (name.clone(), self.expand_tokens(value)))
+            .collect();
         let mut result = String::new();
-        join_html_attributes(&mut result, attributes);
+        join_html_attributes(&mut result, &attributes);
         String::from(" ") + &self.shelve(result.trim_start().to_owned())
     }
 
-- 
2.43.0


From 03c2097f1a1559d3c3bb4c9b5a3cc0ceac5528b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:59 +0000
Subject: [PATCH 55/59] fix: line breaks of long paragraphs are found in linear
 time

---
 src/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 92ad1ad..7a0719f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1205,8 +1205,8 @@ impl <'t> ParserState<'t> {
             static ref TAG_RE: Regex = fregex!(r"(?s)<(p|h[1-6])([^>]*?)>(.*)(</\1>)");
             static ref BR_RE: Regex = fregex!(
                 &format!(r"(?i)<br[ ]*/?>{0}*\n(?![{0}|])", SNIP_SPACE));
-            // not within a tag, whose attributes may contain newlines
-            static ref NEWLINE_RE: Regex = fregex!(r"\n(?![\s|]|[^<>]*>)");
+            // the tags are kept, since their attributes may contain newlines
+            static ref NEWLINE_RE: Regex = fregex!(r"(<[^<>]*>)|\n(?![\s|])");
         }
 
         let f_do_p_br = |cap: &Captures| -> String {
@@ -1214,7 +1214,11 @@ impl <'t> ParserState<'t> {
             let text = BR_RE.replace_all(text, "\n");
             let text = NEWLINE_RE.replace_all(
                 &text,
-                self.textile.proper_br_tag());
+                |cap: &Captures| -> String {
+                    cap.get(1)
+                        .map_or(self.textile.proper_br_tag(), |tag| tag.as_str())
+                        .to_owned()
+                });
             format!("<{0}{1}>{2}{3}", &cap[1], &cap[2], text, &cap[4])
         };
         TAG_RE.replace_all(input, f_do_p_br)
-- 
2.43.0


From fced00768f413727872cba7fb74038ac607ede1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:30 +0000
Subject: [PATCH 56/59] fix: brackets of a note after a link do not count for
 the URL's balance

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index 7a0719f..4671f14 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1487,6 +1487,7 @@ impl <'t> ParserState<'t> {
                 if let Ok(Some(m)) = URL_RE.captures(url) {
                     url = unwrap_or_empty(m.get(1));
                     tight.replace_range(.., &m[2]);
+                    counts[']'] = Some(url.matches(']').count());
                 }
             }
             // Split off any trailing text that isn't part of an array assignment.
-- 
2.43.0


From b1eb87c50cfd83530f609e6161cc4db7d93e26d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:04 +0000
Subject: [PATCH 57/59] fix: the blanks around a quoted quote stay in the text

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4671f14..31b1a4e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1978,7 +1978,7 @@ impl <'t> ParserState<'t> {
                     } else {
                         found.into()
                     };
-                    return self.shelve(format!(" {new_pre}{found}{new_post} "))
+                    return format!(" {0} ", self.shelve(format!("{new_pre}{found}{new_post}")))
                 }
             }
             unreachable!("Should be reached, check regular expression");
-- 
2.43.0


From 597608e692a2e15a57097f7af418465076d95048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:18 +0000
Subject: [PATCH 58/59] fix: a definition without a term stays in the list

---
 src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 31b1a4e..ab54a30 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -921,7 +921,7 @@ impl <'t> ParserState<'t> {
                         out.push(dltag);
                     }
 
-                    if !term.is_empty() {
+                    if !term.is_empty() || !definition.trim().is_empty() {
                         let newline_started_def = definition.starts_with('\n');
                         let mut definition = LONE_LT_RE
                             .replace_all(definition.trim(), "&lt;")
@@ -937,7 +937,9 @@ impl <'t> ParserState<'t> {
                         let term = self.graf(&term);
                         let definition = self.graf(&definition);
 
-                        out.push(format!("\t<dt{0}>{1}</dt>", html_atts_str, term).into());
+                        if !term.is_empty() {
+                            out.push(format!("\t<dt{0}>{1}</dt>", html_atts_str, term).into());
+                        }
                         if !definition.is_empty() {
                             out.push(format!("\t<dd>{0}</dd>", definition).into());
                         }
-- 
2.43.0


From 0f333595e867e537bdb6bb125e4c72d624008f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:54 +0000
Subject: [PATCH 59/59] fix: the name of a link alias ends at its bracket, text
 between brackets on the same line is kept

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ab54a30..a748652 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -604,7 +604,7 @@ impl <'t> ParserState<'t> {
         fn make_url_ref_re(schemes: &[&str]) -> Regex {
             fregex!(
                 &format!(
-                    r"(?:(?<=^)|(?<=\s))\[(.+)\]((?:(?:{0}):|\/)\S+)(?=\s|$)",
+                    r"(?:(?<=^)|(?<=\s))\[([^\[\]\n]+)\]((?:(?:{0}):|\/)\S+)(?=\s|$)",
                     schemes.join("|")))
         }
         lazy_static! {
-- 
2.43.0

