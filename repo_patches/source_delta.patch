From 24b74347a760e10ba94e1007c1bec41548a3e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:42 +0000
Subject: [PATCH 01/76] fix: fall back to the first style in script order, not
 hash order

---
 crates/ass-renderer/src/pipeline/build/run.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index b4d17df..730880d 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -86,6 +86,7 @@ impl Pipeline for super::SoftwarePipeline {
         // Clear and rebuild styles map
         self.styles_map.clear();
         self.default_style = None;
+        let mut first_style: Option<OwnedStyle> = None;
 
         // If we have analysis with resolved styles (which handle LayoutRes->PlayRes scaling),
         // we should use those instead of raw styles
@@ -192,6 +193,9 @@ impl Pipeline for super::SoftwarePipeline {
                             }
                         }
 
+                        if first_style.is_none() {
+                            first_style = Some(owned_style.clone());
+                        }
                         if style_name == "Default" || style_name == "*Default" {
                             self.default_style = Some(owned_style.clone());
                         }
@@ -203,9 +207,9 @@ impl Pipeline for super::SoftwarePipeline {
             }
         }
 
-        // If no default style found, use the first one
-        if self.default_style.is_none() && !self.styles_map.is_empty() {
-            self.default_style = self.styles_map.values().next().cloned();
+        // If no default style found, use the first one in script order
+        if self.default_style.is_none() {
+            self.default_style = first_style;
         }
 
         Ok(())
-- 
2.43.0


From 1872a81991edb4d49e2f11afae30c6f6af2f79c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:42 +0000
Subject: [PATCH 02/76] fix: report event activation changes in script order

---
 crates/ass-renderer/src/renderer/event_selector.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index d2f9ae8..140bc2d 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -135,19 +135,23 @@ impl EventSelector {
         }
 
         // Track changes for incremental rendering
-        let newly_active: Vec<usize> = current_active
+        let mut newly_active: Vec<usize> = current_active
             .iter()
             .filter(|idx| !self.previous_active.contains(idx))
             .cloned()
             .collect();
 
-        let newly_inactive: Vec<usize> = self
+        let mut newly_inactive: Vec<usize> = self
             .previous_active
             .iter()
             .filter(|idx| !current_active.contains(idx))
             .cloned()
             .collect();
 
+        // Report changes in script order
+        newly_active.sort_unstable();
+        newly_inactive.sort_unstable();
+
         // Check if re-render is needed
         let is_dirty = !newly_active.is_empty()
             || !newly_inactive.is_empty()
-- 
2.43.0


From c36fac291bc19ea95cfa458b77db8b84e0186507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 03/76] fix: reset per-script pipeline state before preparing a
 script

---
 crates/ass-renderer/src/pipeline/build/mod.rs | 7 +++++++
 crates/ass-renderer/src/pipeline/build/run.rs | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/crates/ass-renderer/src/pipeline/build/mod.rs b/crates/ass-renderer/src/pipeline/build/mod.rs
index ce2cd1d..1c98042 100644
--- a/crates/ass-renderer/src/pipeline/build/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/mod.rs
@@ -37,6 +37,9 @@ pub struct SoftwarePipeline {
     /// Script playback resolution from PlayResX/PlayResY
     play_res_x: f32,
     play_res_y: f32,
+    /// Resolution assumed for scripts that do not set PlayResX/PlayResY
+    default_res_x: f32,
+    default_res_y: f32,
     /// Script layout resolution from LayoutResX/LayoutResY (if present)
     layout_res_x: Option<f32>,
     layout_res_y: Option<f32>,
@@ -72,6 +75,8 @@ impl SoftwarePipeline {
             default_style: None,
             play_res_x: 1920.0, // Default resolution
             play_res_y: 1080.0, // Default resolution
+            default_res_x: 1920.0,
+            default_res_y: 1080.0,
             layout_res_x: None,
             layout_res_y: None,
             scaled_border_and_shadow: true, // Default to true per ASS spec
@@ -94,6 +99,8 @@ impl SoftwarePipeline {
             default_style: None,
             play_res_x: width,  // Use provided dimensions as default
             play_res_y: height, // Use provided dimensions as default
+            default_res_x: width,
+            default_res_y: height,
             layout_res_x: None,
             layout_res_y: None,
             scaled_border_and_shadow: true, // Default to true per ASS spec
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index 730880d..e1626ef 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -88,6 +88,15 @@ impl Pipeline for super::SoftwarePipeline {
         self.default_style = None;
         let mut first_style: Option<OwnedStyle> = None;
 
+        // Forget the previous script's headers: a header absent from this script
+        // takes its default, not the value of whichever script was rendered before
+        self.play_res_x = self.default_res_x;
+        self.play_res_y = self.default_res_y;
+        self.layout_res_x = None;
+        self.layout_res_y = None;
+        self.scaled_border_and_shadow = true;
+        self.wrap_style = 0;
+
         // If we have analysis with resolved styles (which handle LayoutRes->PlayRes scaling),
         // we should use those instead of raw styles
         #[cfg(feature = "analysis-integration")]
-- 
2.43.0


From 3b2864569d04fed834c97f5d62fc96095f9ff1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:25 +0000
Subject: [PATCH 04/76] fix: key the event time index by timing content, not by
 address

---
 .../src/renderer/event_selector.rs            |  5 +--
 .../ass-renderer/src/renderer/time_index.rs   | 42 ++++++++++++++++---
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index 140bc2d..20d2979 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -174,16 +174,15 @@ impl EventSelector {
 
     /// Build (or reuse) the parsed time index for `events`.
     ///
-    /// The index is keyed by the events slice's address, length, and the current
+    /// The index is keyed by the events' timing content and the current
     /// comment-rendering flag; when that key is unchanged the existing index is
     /// kept, so each event's start/end time string is parsed only once per script
     /// rather than on every frame.
     fn ensure_index(&mut self, events: &[Event]) {
-        let key = (events.as_ptr() as usize, events.len(), self.render_comments);
         if self
             .time_index
             .as_ref()
-            .is_some_and(|index| index.key == key)
+            .is_some_and(|index| index.matches(events, self.render_comments))
         {
             return;
         }
diff --git a/crates/ass-renderer/src/renderer/time_index.rs b/crates/ass-renderer/src/renderer/time_index.rs
index 8e065a3..557ac34 100644
--- a/crates/ass-renderer/src/renderer/time_index.rs
+++ b/crates/ass-renderer/src/renderer/time_index.rs
@@ -3,21 +3,38 @@
 use ass_core::parser::{ast::EventType, Event};
 
 #[cfg(feature = "nostd")]
-use alloc::vec::Vec;
+use alloc::{
+    string::{String, ToString},
+    vec::Vec,
+};
 
 /// Parsed, start-sorted timing index for a script's events.
 ///
-/// Keyed by the events `Vec`'s address, length, and the comment-rendering flag,
-/// so it is reused across frames and rebuilt only when the script (or that flag)
+/// Keyed by the events' types and timing strings and the comment-rendering flag,
+/// so it is reused across frames and rebuilt only when the timing (or that flag)
 /// changes. Each entry is `(start_cs, end_cs, original_index)`; the original
 /// index preserves file-order rendering when active events are emitted.
 #[derive(Debug, Clone)]
 pub(super) struct TimeIndex {
-    pub(super) key: (usize, usize, bool),
+    timing: Vec<(EventType, String, String)>,
+    render_comments: bool,
     pub(super) by_start: Vec<(u32, u32, usize)>,
 }
 
 impl TimeIndex {
+    /// Whether this index was built from exactly this timing content.
+    pub(super) fn matches(&self, events: &[Event], render_comments: bool) -> bool {
+        self.render_comments == render_comments
+            && self.timing.len() == events.len()
+            && self
+                .timing
+                .iter()
+                .zip(events)
+                .all(|((event_type, start, end), event)| {
+                    *event_type == event.event_type && start == event.start && end == event.end
+                })
+    }
+
     /// Build the parsed time index for `events`.
     ///
     /// Each included event's start/end time string is parsed once here, and the
@@ -25,7 +42,16 @@ impl TimeIndex {
     /// per-frame scan with `partition_point`. `Dialogue` events are always
     /// included; `Comment` events only when `render_comments` is set.
     pub(super) fn build(events: &[Event], render_comments: bool) -> Self {
-        let key = (events.as_ptr() as usize, events.len(), render_comments);
+        let timing = events
+            .iter()
+            .map(|event| {
+                (
+                    event.event_type,
+                    event.start.to_string(),
+                    event.end.to_string(),
+                )
+            })
+            .collect();
 
         let mut by_start = Vec::new();
         for (idx, event) in events.iter().enumerate() {
@@ -42,6 +68,10 @@ impl TimeIndex {
         }
         by_start.sort_unstable_by_key(|&(start, _, _)| start);
 
-        Self { key, by_start }
+        Self {
+            timing,
+            render_comments,
+            by_start,
+        }
     }
 }
-- 
2.43.0


From b9cdffb7fd3daafca13732ebd09337f7e8db8b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 05/76] fix: key the static frame cache by content, not by
 address

---
 crates/ass-renderer/src/renderer/frame_key.rs | 124 ++++++++++++++++++
 crates/ass-renderer/src/renderer/mod.rs       |  33 ++---
 2 files changed, 142 insertions(+), 15 deletions(-)
 create mode 100644 crates/ass-renderer/src/renderer/frame_key.rs

diff --git a/crates/ass-renderer/src/renderer/frame_key.rs b/crates/ass-renderer/src/renderer/frame_key.rs
new file mode 100644
index 0000000..0e1e462
--- /dev/null
+++ b/crates/ass-renderer/src/renderer/frame_key.rs
@@ -0,0 +1,124 @@
+//! Content key of the static frame cache.
+
+use ass_core::parser::{ast::EventType, Event, Script, Section};
+
+#[cfg(feature = "nostd")]
+use alloc::{
+    string::{String, ToString},
+    vec::Vec,
+};
+
+/// Everything a static frame is rendered from, by value: the target size, the
+/// script's headers, styles and fonts, and the active events.
+///
+/// Comparing contents rather than addresses keeps a cached frame from being
+/// served for a script that was edited, or for another script that happens to
+/// occupy the same memory.
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub(super) struct FrameKey {
+    size: (u32, u32),
+    parts: Vec<String>,
+}
+
+impl FrameKey {
+    /// Capture the key of the frame showing `events` of `script`.
+    pub(super) fn new(script: &Script, events: &[&Event], size: (u32, u32)) -> Self {
+        let mut parts = Vec::new();
+        visit_parts(script, events, |part| {
+            parts.push(part.to_string());
+            true
+        });
+        Self { size, parts }
+    }
+
+    /// Whether the frame showing `events` of `script` has this key.
+    pub(super) fn matches(&self, script: &Script, events: &[&Event], size: (u32, u32)) -> bool {
+        let mut remaining = self.parts.iter();
+        self.size == size
+            && visit_parts(script, events, |part| {
+                remaining.next().is_some_and(|own| own == part)
+            })
+            && remaining.next().is_none()
+    }
+}
+
+/// Feed every content part to `visit` until it returns `false`.
+fn visit_parts(script: &Script, events: &[&Event], mut visit: impl FnMut(&str) -> bool) -> bool {
+    for section in script.sections() {
+        let complete = match section {
+            Section::ScriptInfo(info) => {
+                visit("[info]")
+                    && info
+                        .fields
+                        .iter()
+                        .all(|(key, value)| visit(key) && visit(value))
+            }
+            Section::Styles(styles) => {
+                visit("[styles]")
+                    && styles.iter().all(|style| {
+                        [
+                            style.name,
+                            style.fontname,
+                            style.fontsize,
+                            style.primary_colour,
+                            style.secondary_colour,
+                            style.outline_colour,
+                            style.back_colour,
+                            style.bold,
+                            style.italic,
+                            style.underline,
+                            style.strikeout,
+                            style.scale_x,
+                            style.scale_y,
+                            style.spacing,
+                            style.angle,
+                            style.border_style,
+                            style.outline,
+                            style.shadow,
+                            style.alignment,
+                            style.margin_l,
+                            style.margin_r,
+                            style.margin_v,
+                            style.encoding,
+                        ]
+                        .into_iter()
+                        .all(&mut visit)
+                    })
+            }
+            Section::Fonts(fonts) => {
+                visit("[fonts]")
+                    && fonts.iter().all(|font| {
+                        visit("[font]")
+                            && visit(font.filename)
+                            && font.data_lines.iter().all(|line| visit(line))
+                    })
+            }
+            _ => true,
+        };
+        if !complete {
+            return false;
+        }
+    }
+    visit("[events]")
+        && events.iter().all(|event| {
+            let kind = match event.event_type {
+                EventType::Dialogue => "dialogue",
+                EventType::Comment => "comment",
+                _ => "other",
+            };
+            [
+                kind,
+                event.layer,
+                event.start,
+                event.end,
+                event.style,
+                event.margin_l,
+                event.margin_r,
+                event.margin_v,
+                event.effect,
+                event.text,
+            ]
+            .into_iter()
+            .all(&mut visit)
+        })
+}
diff --git a/crates/ass-renderer/src/renderer/mod.rs b/crates/ass-renderer/src/renderer/mod.rs
index bcbe7ff..f4e42bc 100644
--- a/crates/ass-renderer/src/renderer/mod.rs
+++ b/crates/ass-renderer/src/renderer/mod.rs
@@ -15,6 +15,7 @@ mod event_selector;
 mod frame;
 mod metrics;
 mod probing;
+mod frame_key;
 mod time_index;
 
 pub use context::RenderContext;
@@ -29,11 +30,11 @@ pub struct Renderer {
     backend: Box<dyn RenderBackend>,
     pipeline: Box<dyn Pipeline>,
     event_selector: event_selector::EventSelector,
-    /// Cache of the last fully-static rendered frame, keyed by the active events'
-    /// text spans. Reused (data copied, timestamp updated) when no active event is
+    /// Cache of the last fully-static rendered frame, keyed by the content it was
+    /// rendered from. Reused (data copied, timestamp updated) when no active event is
     /// animated and the active set is unchanged — the common case of a subtitle
     /// shown across many frames. Animated frames (`\t`/`\move`/`\k`/`\fad`) skip it.
-    frame_cache: Option<(Vec<(usize, usize)>, Frame)>,
+    frame_cache: Option<(frame_key::FrameKey, Frame)>,
 }
 
 impl Renderer {
@@ -110,17 +111,12 @@ impl Renderer {
         // render (copying its pixels with the current timestamp) instead of
         // re-shaping and re-rasterizing. Animated frames bypass and clear it.
         let animated = events.iter().any(|e| Self::event_is_animated(e.text));
-        let cache_key: Option<Vec<(usize, usize)>> = (!animated).then(|| {
-            events
-                .iter()
-                .map(|e| (e.text.as_ptr() as usize, e.text.len()))
-                .collect()
-        });
-        if let (Some(key), Some((cached_key, cached))) =
-            (cache_key.as_ref(), self.frame_cache.as_ref())
-        {
-            if cached_key == key {
-                return Ok(cached.with_timestamp(time_cs));
+        let size = (self.context.width(), self.context.height());
+        if !animated {
+            if let Some((key, cached)) = self.frame_cache.as_ref() {
+                if key.matches(script, &events, size) {
+                    return Ok(cached.with_timestamp(time_cs));
+                }
             }
         }
 
@@ -139,7 +135,12 @@ impl Renderer {
             self.context.height(),
             time_cs,
         );
-        self.frame_cache = cache_key.map(|key| (key, frame.clone()));
+        self.frame_cache = (!animated).then(|| {
+            (
+                frame_key::FrameKey::new(script, &events, size),
+                frame.clone(),
+            )
+        });
         Ok(frame)
     }
 
@@ -243,6 +244,7 @@ impl Renderer {
     /// Update render context
     pub fn set_context(&mut self, context: RenderContext) {
         self.context = context;
+        self.frame_cache = None;
     }
 
     /// Get render context
@@ -252,6 +254,7 @@ impl Renderer {
 
     /// Get mutable render context
     pub fn context_mut(&mut self) -> &mut RenderContext {
+        self.frame_cache = None;
         &mut self.context
     }
 
-- 
2.43.0


From f7950658a6fec17203df39979ebe72a70bd78aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 06/76] fix: leave bitmap mode before propagating a layer error

---
 crates/ass-renderer/src/backends/software/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/backends/software/mod.rs b/crates/ass-renderer/src/backends/software/mod.rs
index d2797ed..96274b5 100644
--- a/crates/ass-renderer/src/backends/software/mod.rs
+++ b/crates/ass-renderer/src/backends/software/mod.rs
@@ -102,9 +102,11 @@ impl SoftwareBackend {
             std::mem::swap(&mut self.pixmap, &mut self.scratch);
             let result = self.composite_layer(layer, context);
             std::mem::swap(&mut self.pixmap, &mut self.scratch);
+            // Leave bitmap mode before propagating an error: a sink left installed
+            // would swallow every later composite on this thread.
+            let coverage = EMIT_SINK.with(|sink| sink.borrow_mut().take().unwrap_or_default());
             result?;
 
-            let coverage = EMIT_SINK.with(|sink| sink.borrow_mut().take().unwrap_or_default());
             if coverage.is_empty() {
                 // Vector / raster / drawing layer: it rendered into the scratch.
                 let hint = DIRTY_BBOX.with(|b| *b.borrow());
-- 
2.43.0


From 8354a644f54c52830df00d5ed2446fc09665ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 07/76] fix: drop the previous script's embedded fonts before
 loading a script's own

---
 crates/ass-renderer/src/pipeline/build/mod.rs |  9 ++++++
 crates/ass-renderer/src/pipeline/build/run.rs | 11 +++++--
 .../ass-renderer/src/pipeline/font_loader.rs  | 31 +++++++++++++++++++
 crates/ass-renderer/src/renderer/mod.rs       |  2 +-
 4 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/mod.rs b/crates/ass-renderer/src/pipeline/build/mod.rs
index 1c98042..5248f02 100644
--- a/crates/ass-renderer/src/pipeline/build/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/mod.rs
@@ -23,6 +23,11 @@ use style::OwnedStyle;
 pub struct SoftwarePipeline {
     /// Font database for text rendering
     font_database: FontDatabase,
+    /// System fonts alone, the base `font_database` is rebuilt from when a script
+    /// brings other fonts than the previous one
+    system_fonts: FontDatabase,
+    /// Font sources of the script `font_database` was last built for
+    script_fonts: Vec<String>,
     /// Glyph renderer
     #[allow(dead_code)] // Glyph rendering component - used in future rendering features
     glyph_renderer: GlyphRenderer,
@@ -67,6 +72,8 @@ impl SoftwarePipeline {
         font_database.load_system_fonts();
 
         Self {
+            system_fonts: font_database.clone(),
+            script_fonts: Vec::new(),
             font_database,
             glyph_renderer: GlyphRenderer::new(),
             collision_resolver: crate::collision::CollisionResolver::new(1920.0, 1080.0),
@@ -91,6 +98,8 @@ impl SoftwarePipeline {
         font_database.load_system_fonts();
 
         Self {
+            system_fonts: font_database.clone(),
+            script_fonts: Vec::new(),
             font_database,
             glyph_renderer: GlyphRenderer::new(),
             collision_resolver: crate::collision::CollisionResolver::new(width, height),
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index e1626ef..0e93f5a 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -80,8 +80,15 @@ impl Pipeline for super::SoftwarePipeline {
         #[cfg(feature = "analysis-integration")] analysis: Option<&ScriptAnalysis>,
         #[cfg(not(feature = "analysis-integration"))] _analysis: Option<()>,
     ) -> Result<(), RenderError> {
-        // Load embedded and referenced fonts from the script
-        super::super::font_loader::load_script_fonts(script, &mut self.font_database);
+        // Load embedded and referenced fonts from the script, on top of the system
+        // fonts only: fonts of a previously rendered script must not linger, nor
+        // the same fonts pile up once per frame
+        let script_fonts = super::super::font_loader::script_font_sources(script);
+        if script_fonts != self.script_fonts {
+            self.font_database = self.system_fonts.clone();
+            super::super::font_loader::load_script_fonts(script, &mut self.font_database);
+            self.script_fonts = script_fonts;
+        }
 
         // Clear and rebuild styles map
         self.styles_map.clear();
diff --git a/crates/ass-renderer/src/pipeline/font_loader.rs b/crates/ass-renderer/src/pipeline/font_loader.rs
index c11cf44..5bc6738 100644
--- a/crates/ass-renderer/src/pipeline/font_loader.rs
+++ b/crates/ass-renderer/src/pipeline/font_loader.rs
@@ -3,6 +3,12 @@
 use ass_core::parser::Script;
 use fontdb::Database as FontDatabase;
 
+#[cfg(feature = "nostd")]
+use alloc::{
+    string::{String, ToString},
+    vec::Vec,
+};
+
 /// Lazily-loaded, process-wide system font database, shared via `Arc`.
 ///
 /// `load_system_fonts` scans every installed font and is expensive (tens of ms),
@@ -99,6 +105,31 @@ pub fn load_font_files(
     }
 }
 
+/// The font sources a script brings along (embedded data and `Font*` headers), by
+/// value, so that callers can tell whether two scripts load the same fonts
+pub(crate) fn script_font_sources(script: &Script) -> Vec<String> {
+    let mut sources = Vec::new();
+    for section in script.sections() {
+        match section {
+            ass_core::parser::ast::Section::Fonts(fonts) => {
+                for font in fonts {
+                    sources.push(font.filename.to_string());
+                    sources.extend(font.data_lines.iter().map(|line| line.to_string()));
+                }
+            }
+            ass_core::parser::ast::Section::ScriptInfo(info) => {
+                for (key, value) in &info.fields {
+                    if key.to_lowercase().contains("font") {
+                        sources.push(value.trim().to_string());
+                    }
+                }
+            }
+            _ => {}
+        }
+    }
+    sources
+}
+
 /// Load all fonts referenced in an ASS script
 pub fn load_script_fonts(script: &Script, font_database: &mut FontDatabase) {
     // Load embedded fonts from [Fonts] section
diff --git a/crates/ass-renderer/src/renderer/mod.rs b/crates/ass-renderer/src/renderer/mod.rs
index f4e42bc..086588c 100644
--- a/crates/ass-renderer/src/renderer/mod.rs
+++ b/crates/ass-renderer/src/renderer/mod.rs
@@ -13,9 +13,9 @@ use std::boxed::Box;
 mod context;
 mod event_selector;
 mod frame;
+mod frame_key;
 mod metrics;
 mod probing;
-mod frame_key;
 mod time_index;
 
 pub use context::RenderContext;
-- 
2.43.0


From dbc260701204b7b780783f2f20bb4a87557ce2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 08/76] fix: list plugin registry names in a stable order

---
 crates/ass-core/plugin/registry.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/ass-core/plugin/registry.rs b/crates/ass-core/plugin/registry.rs
index 61e439a..6db5628 100644
--- a/crates/ass-core/plugin/registry.rs
+++ b/crates/ass-core/plugin/registry.rs
@@ -115,16 +115,20 @@ impl ExtensionRegistry {
             .map(|processor| processor.process(header, lines))
     }
 
-    /// Get list of registered tag handler names
+    /// Get list of registered tag handler names, sorted
     #[must_use]
     pub fn tag_handler_names(&self) -> Vec<&str> {
-        self.tag_handlers.keys().map(String::as_str).collect()
+        let mut names: Vec<&str> = self.tag_handlers.keys().map(String::as_str).collect();
+        names.sort_unstable();
+        names
     }
 
-    /// Get list of registered section processor names
+    /// Get list of registered section processor names, sorted
     #[must_use]
     pub fn section_processor_names(&self) -> Vec<&str> {
-        self.section_processors.keys().map(String::as_str).collect()
+        let mut names: Vec<&str> = self.section_processors.keys().map(String::as_str).collect();
+        names.sort_unstable();
+        names
     }
 
     /// Check if a tag handler is registered
-- 
2.43.0


From 72dd29d746d1ff90e1993ba35446c51a0fe48413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 09/76] fix: keep projected outlines out of the blur tile cache

---
 crates/ass-renderer/src/backends/software/text/blur.rs    | 6 ++++--
 crates/ass-renderer/src/backends/software/text/mod.rs     | 3 +++
 crates/ass-renderer/src/backends/software/text/prepare.rs | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index 8efffa3..896edad 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -34,8 +34,10 @@ impl super::super::SoftwareBackend {
         // The blurred bitmap is a pure function of the glyph outlines, blur
         // radius and baked colours (screen position is applied at composite),
         // so identical blurred glyphs reuse one bitmap. A positional `\clip`
-        // makes the result position-dependent, so it is not cached.
-        let cache_key = clip_mask.is_none().then(|| BlurTileKey {
+        // makes the result position-dependent, so it is not cached; neither are
+        // `\frx`/`\fry`-projected outlines, which the key does not describe.
+        let cacheable = clip_mask.is_none() && !run.projected;
+        let cache_key = cacheable.then(|| BlurTileKey {
             text: data.text.clone(),
             font: data.font_family.clone(),
             size: data.font_size.to_bits(),
diff --git a/crates/ass-renderer/src/backends/software/text/mod.rs b/crates/ass-renderer/src/backends/software/text/mod.rs
index 8de6d1e..29ea230 100644
--- a/crates/ass-renderer/src/backends/software/text/mod.rs
+++ b/crates/ass-renderer/src/backends/software/text/mod.rs
@@ -27,6 +27,9 @@ mod prepare;
 struct TextRun {
     /// Positioned glyph outlines (already projected for `\frx`/`\fry`).
     paths: Vec<tiny_skia::Path>,
+    /// Whether `paths` went through the `\frx`/`\fry` projection, which bakes the
+    /// layer's position and rotation into them.
+    projected: bool,
     /// Base affine transform baking translation, rotation, scale and shear.
     base_transform: Transform,
     /// Baseline Y (`data.y + shaped.baseline`).
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index 6a719d8..febb688 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -338,6 +338,7 @@ impl super::super::SoftwareBackend {
 
         Ok(Some(TextRun {
             paths,
+            projected: rot3d.is_some(),
             base_transform,
             baseline_y,
             shaped,
-- 
2.43.0


From a680f68c6c8748bb855e053f0c0f28d681f59ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 10/76] fix: key cached glyph outlines by the exact font size

---
 crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs b/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs
index ade0599..27aa725 100644
--- a/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs
+++ b/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs
@@ -93,11 +93,13 @@ impl GlyphRenderer {
 
         // Render each glyph
         for (i, glyph) in shaped.glyphs.iter().enumerate() {
-            let size_fixed = (shaped.font_size * 65536.0) as u32; // Convert to 16.16 fixed point
+            // The exact size: a fixed-point rendition would fold negative sizes to 0 and
+            // saturate for large ones, so outlines of different sizes would share an entry
+            let size_bits = shaped.font_size.to_bits();
             let key = GlyphKey {
                 font_id,
                 glyph_id: glyph.glyph_id,
-                size: size_fixed,
+                size: size_bits,
             };
 
             // Apply spacing to x position (accumulated for all previous glyphs)
-- 
2.43.0


From 93e79a3ef659f7ff42615b23a299fc08db09042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:59 +0000
Subject: [PATCH 11/76] fix: match column names alike when reading and writing
 lines

The writers compared column names case-sensitively, so a script whose Format line the
parser accepted (it ignores case) was written back with empty columns; the readers did not
know the Actor and TertiaryColour aliases the writers emit.
---
 .../parser/ast/event/serialization.rs         | 27 ++++-----
 .../ass-core/parser/ast/style/conversion.rs   | 55 ++++++++++---------
 .../parser/sections/events/event_data.rs      |  5 +-
 .../parser/sections/events/static_parser.rs   |  5 +-
 .../parser/sections/styles/parse_internal.rs  |  5 +-
 .../parser/sections/styles/parse_line.rs      |  5 +-
 6 files changed, 58 insertions(+), 44 deletions(-)

diff --git a/crates/ass-core/parser/ast/event/serialization.rs b/crates/ass-core/parser/ast/event/serialization.rs
index 1945293..4c2a7ce 100644
--- a/crates/ass-core/parser/ast/event/serialization.rs
+++ b/crates/ass-core/parser/ast/event/serialization.rs
@@ -89,19 +89,20 @@ impl Event<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Layer" => self.layer,
-                "Start" => self.start,
-                "End" => self.end,
-                "Style" => self.style,
-                "Name" | "Actor" => self.name,
-                "MarginL" => self.margin_l,
-                "MarginR" => self.margin_r,
-                "MarginV" => self.margin_v,
-                "MarginT" => self.margin_t.unwrap_or("0"),
-                "MarginB" => self.margin_b.unwrap_or("0"),
-                "Effect" => self.effect,
-                "Text" => self.text,
+            // Column names ignore ASCII case, as they do when parsing
+            let value = match field.to_ascii_lowercase().as_str() {
+                "layer" => self.layer,
+                "start" => self.start,
+                "end" => self.end,
+                "style" => self.style,
+                "name" | "actor" => self.name,
+                "marginl" => self.margin_l,
+                "marginr" => self.margin_r,
+                "marginv" => self.margin_v,
+                "margint" => self.margin_t.unwrap_or("0"),
+                "marginb" => self.margin_b.unwrap_or("0"),
+                "effect" => self.effect,
+                "text" => self.text,
                 _ => "", // Unknown fields default to empty
             };
             field_values.push(value);
diff --git a/crates/ass-core/parser/ast/style/conversion.rs b/crates/ass-core/parser/ast/style/conversion.rs
index 282a03b..675b198 100644
--- a/crates/ass-core/parser/ast/style/conversion.rs
+++ b/crates/ass-core/parser/ast/style/conversion.rs
@@ -94,33 +94,34 @@ impl Style<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Name" => self.name,
-                "Fontname" => self.fontname,
-                "Fontsize" => self.fontsize,
-                "PrimaryColour" => self.primary_colour,
-                "SecondaryColour" => self.secondary_colour,
-                "OutlineColour" | "TertiaryColour" => self.outline_colour,
-                "BackColour" => self.back_colour,
-                "Bold" => self.bold,
-                "Italic" => self.italic,
-                "Underline" => self.underline,
-                "Strikeout" | "StrikeOut" => self.strikeout,
-                "ScaleX" => self.scale_x,
-                "ScaleY" => self.scale_y,
-                "Spacing" => self.spacing,
-                "Angle" => self.angle,
-                "BorderStyle" => self.border_style,
-                "Outline" => self.outline,
-                "Shadow" => self.shadow,
-                "Alignment" => self.alignment,
-                "MarginL" => self.margin_l,
-                "MarginR" => self.margin_r,
-                "MarginV" => self.margin_v,
-                "MarginT" => self.margin_t.unwrap_or("0"),
-                "MarginB" => self.margin_b.unwrap_or("0"),
-                "Encoding" => self.encoding,
-                "RelativeTo" => self.relative_to.unwrap_or("0"),
+            // Column names ignore ASCII case, as they do when parsing
+            let value = match field.to_ascii_lowercase().as_str() {
+                "name" => self.name,
+                "fontname" => self.fontname,
+                "fontsize" => self.fontsize,
+                "primarycolour" => self.primary_colour,
+                "secondarycolour" => self.secondary_colour,
+                "outlinecolour" | "tertiarycolour" => self.outline_colour,
+                "backcolour" => self.back_colour,
+                "bold" => self.bold,
+                "italic" => self.italic,
+                "underline" => self.underline,
+                "strikeout" => self.strikeout,
+                "scalex" => self.scale_x,
+                "scaley" => self.scale_y,
+                "spacing" => self.spacing,
+                "angle" => self.angle,
+                "borderstyle" => self.border_style,
+                "outline" => self.outline,
+                "shadow" => self.shadow,
+                "alignment" => self.alignment,
+                "marginl" => self.margin_l,
+                "marginr" => self.margin_r,
+                "marginv" => self.margin_v,
+                "margint" => self.margin_t.unwrap_or("0"),
+                "marginb" => self.margin_b.unwrap_or("0"),
+                "encoding" => self.encoding,
+                "relativeto" => self.relative_to.unwrap_or("0"),
                 _ => "", // Unknown fields default to empty
             };
             field_values.push(value);
diff --git a/crates/ass-core/parser/sections/events/event_data.rs b/crates/ass-core/parser/sections/events/event_data.rs
index ca4f4a4..c1cd39c 100644
--- a/crates/ass-core/parser/sections/events/event_data.rs
+++ b/crates/ass-core/parser/sections/events/event_data.rs
@@ -100,7 +100,10 @@ impl<'a> EventsParser<'a> {
             start: get_field("Start"),
             end: get_field("End"),
             style: get_field("Style"),
-            name: get_field("Name"),
+            name: match get_field("Name") {
+                "" => get_field("Actor"),
+                name => name,
+            },
             margin_l: get_field("MarginL"),
             margin_r: get_field("MarginR"),
             margin_v: get_field("MarginV"),
diff --git a/crates/ass-core/parser/sections/events/static_parser.rs b/crates/ass-core/parser/sections/events/static_parser.rs
index 79dd9c9..ead1460 100644
--- a/crates/ass-core/parser/sections/events/static_parser.rs
+++ b/crates/ass-core/parser/sections/events/static_parser.rs
@@ -114,7 +114,10 @@ impl<'a> EventsParser<'a> {
             start: get_field("Start"),
             end: get_field("End"),
             style: get_field("Style"),
-            name: get_field("Name"),
+            name: match get_field("Name") {
+                "" => get_field("Actor"),
+                name => name,
+            },
             margin_l: get_field("MarginL"),
             margin_r: get_field("MarginR"),
             margin_v: get_field("MarginV"),
diff --git a/crates/ass-core/parser/sections/styles/parse_internal.rs b/crates/ass-core/parser/sections/styles/parse_internal.rs
index 752a745..b0e7961 100644
--- a/crates/ass-core/parser/sections/styles/parse_internal.rs
+++ b/crates/ass-core/parser/sections/styles/parse_internal.rs
@@ -94,7 +94,10 @@ impl<'a> StylesParser<'a> {
             fontsize: get_field("Fontsize"),
             primary_colour: get_field("PrimaryColour"),
             secondary_colour: get_field("SecondaryColour"),
-            outline_colour: get_field("OutlineColour"),
+            outline_colour: match get_field("OutlineColour") {
+                "" => get_field("TertiaryColour"),
+                colour => colour,
+            },
             back_colour: get_field("BackColour"),
             bold: get_field("Bold"),
             italic: get_field("Italic"),
diff --git a/crates/ass-core/parser/sections/styles/parse_line.rs b/crates/ass-core/parser/sections/styles/parse_line.rs
index b62cc8c..349f5c4 100644
--- a/crates/ass-core/parser/sections/styles/parse_line.rs
+++ b/crates/ass-core/parser/sections/styles/parse_line.rs
@@ -105,7 +105,10 @@ impl<'a> StylesParser<'a> {
             fontsize: get_field("Fontsize"),
             primary_colour: get_field("PrimaryColour"),
             secondary_colour: get_field("SecondaryColour"),
-            outline_colour: get_field("OutlineColour"),
+            outline_colour: match get_field("OutlineColour") {
+                "" => get_field("TertiaryColour"),
+                colour => colour,
+            },
             back_colour: get_field("BackColour"),
             bold: get_field("Bold"),
             italic: get_field("Italic"),
-- 
2.43.0


From b5eba425ea45b276562706067931ea6b5948de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 12/76] fix: keep commas in the text when an editor command
 rewrites an event line

The line was split at its last comma, so everything before the last comma of the text
moved into the effect column (and a multi-byte character before it made the split panic).
---
 crates/ass-editor/commands/event_commands/helpers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/helpers.rs b/crates/ass-editor/commands/event_commands/helpers.rs
index fc15202..0b0c7f1 100644
--- a/crates/ass-editor/commands/event_commands/helpers.rs
+++ b/crates/ass-editor/commands/event_commands/helpers.rs
@@ -54,15 +54,15 @@ pub(super) fn parse_event_line(line: &str) -> core::result::Result<Event<'_>, Ed
     let prefix_len = parts[0..8].iter().map(|s| s.len()).sum::<usize>() + 8; // +8 for commas
     let remaining = &fields_part[prefix_len..];
 
-    // Find the last comma that's not inside parentheses
+    // Find the first comma that's not inside parentheses: what follows it is the text,
+    // commas included
     let mut split_point = None;
-    let chars: Vec<char> = remaining.chars().collect();
     let mut paren_depth = 0;
 
-    for (i, &ch) in chars.iter().enumerate().rev() {
+    for (i, ch) in remaining.char_indices() {
         match ch {
-            ')' => paren_depth += 1,
-            '(' => paren_depth -= 1,
+            '(' => paren_depth += 1,
+            ')' => paren_depth -= 1,
             ',' if paren_depth == 0 => {
                 split_point = Some(i);
                 break;
-- 
2.43.0


From 46ac2814cef35d8a3e2df409729e02f1133bbc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:36 +0000
Subject: [PATCH 13/76] fix: let event and style builders accept any letter
 case in column names

---
 .../ass-editor/core/builders/event_build.rs   | 27 ++++-----
 .../ass-editor/core/builders/style_format.rs  | 57 ++++++++++---------
 2 files changed, 43 insertions(+), 41 deletions(-)

diff --git a/crates/ass-editor/core/builders/event_build.rs b/crates/ass-editor/core/builders/event_build.rs
index 26efb94..fe7292b 100644
--- a/crates/ass-editor/core/builders/event_build.rs
+++ b/crates/ass-editor/core/builders/event_build.rs
@@ -80,27 +80,28 @@ impl EventBuilder<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Layer" => self.layer.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "Start" => self
+            // Column names ignore ASCII case, as they do when parsing
+            let value = match field.to_ascii_lowercase().as_str() {
+                "layer" => self.layer.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
+                "start" => self
                     .start
                     .as_ref()
                     .map(|c| c.as_ref())
                     .unwrap_or("0:00:00.00"),
-                "End" => self
+                "end" => self
                     .end
                     .as_ref()
                     .map(|c| c.as_ref())
                     .unwrap_or("0:00:05.00"),
-                "Style" => self.style.as_ref().map(|c| c.as_ref()).unwrap_or("Default"),
-                "Name" | "Actor" => self.name.as_ref().map(|c| c.as_ref()).unwrap_or(""),
-                "MarginL" => self.margin_l.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "MarginR" => self.margin_r.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "MarginV" => self.margin_v.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "MarginT" => self.margin_t.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "MarginB" => self.margin_b.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "Effect" => self.effect.as_ref().map(|c| c.as_ref()).unwrap_or(""),
-                "Text" => self.text.as_ref().map(|c| c.as_ref()).unwrap_or(""),
+                "style" => self.style.as_ref().map(|c| c.as_ref()).unwrap_or("Default"),
+                "name" | "actor" => self.name.as_ref().map(|c| c.as_ref()).unwrap_or(""),
+                "marginl" => self.margin_l.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
+                "marginr" => self.margin_r.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
+                "marginv" => self.margin_v.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
+                "margint" => self.margin_t.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
+                "marginb" => self.margin_b.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
+                "effect" => self.effect.as_ref().map(|c| c.as_ref()).unwrap_or(""),
+                "text" => self.text.as_ref().map(|c| c.as_ref()).unwrap_or(""),
                 _ => {
                     return Err(EditorError::FormatLineError {
                         message: format!("Unknown event field: {field}"),
diff --git a/crates/ass-editor/core/builders/style_format.rs b/crates/ass-editor/core/builders/style_format.rs
index 760bd06..4fa79c6 100644
--- a/crates/ass-editor/core/builders/style_format.rs
+++ b/crates/ass-editor/core/builders/style_format.rs
@@ -24,66 +24,67 @@ impl StyleBuilder {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Name" => self.name.clone().unwrap_or_else(|| "NewStyle".to_string()),
-                "Fontname" => self.fontname.clone().unwrap_or_else(|| "Arial".to_string()),
-                "Fontsize" => self.fontsize.unwrap_or(20).to_string(),
-                "PrimaryColour" => self
+            // Column names ignore ASCII case, as they do when parsing
+            let value = match field.to_ascii_lowercase().as_str() {
+                "name" => self.name.clone().unwrap_or_else(|| "NewStyle".to_string()),
+                "fontname" => self.fontname.clone().unwrap_or_else(|| "Arial".to_string()),
+                "fontsize" => self.fontsize.unwrap_or(20).to_string(),
+                "primarycolour" => self
                     .primary_colour
                     .clone()
                     .unwrap_or_else(|| "&Hffffff".to_string()),
-                "SecondaryColour" => self
+                "secondarycolour" => self
                     .secondary_colour
                     .clone()
                     .unwrap_or_else(|| "&Hff0000".to_string()),
-                "OutlineColour" | "TertiaryColour" => self
+                "outlinecolour" | "tertiarycolour" => self
                     .outline_colour
                     .clone()
                     .unwrap_or_else(|| "&H0".to_string()),
-                "BackColour" => self
+                "backcolour" => self
                     .back_colour
                     .clone()
                     .unwrap_or_else(|| "&H0".to_string()),
-                "Bold" => if self.bold.unwrap_or(false) {
+                "bold" => if self.bold.unwrap_or(false) {
                     "-1"
                 } else {
                     "0"
                 }
                 .to_string(),
-                "Italic" => if self.italic.unwrap_or(false) {
+                "italic" => if self.italic.unwrap_or(false) {
                     "-1"
                 } else {
                     "0"
                 }
                 .to_string(),
-                "Underline" => if self.underline.unwrap_or(false) {
+                "underline" => if self.underline.unwrap_or(false) {
                     "-1"
                 } else {
                     "0"
                 }
                 .to_string(),
-                "Strikeout" | "StrikeOut" => if self.strikeout.unwrap_or(false) {
+                "strikeout" => if self.strikeout.unwrap_or(false) {
                     "-1"
                 } else {
                     "0"
                 }
                 .to_string(),
-                "ScaleX" => self.scale_x.unwrap_or(100.0).to_string(),
-                "ScaleY" => self.scale_y.unwrap_or(100.0).to_string(),
-                "Spacing" => self.spacing.unwrap_or(0.0).to_string(),
-                "Angle" => self.angle.unwrap_or(0.0).to_string(),
-                "BorderStyle" => self.border_style.unwrap_or(1).to_string(),
-                "Outline" => self.outline.unwrap_or(2.0).to_string(),
-                "Shadow" => self.shadow.unwrap_or(0.0).to_string(),
-                "Alignment" => self.alignment.unwrap_or(2).to_string(),
-                "MarginL" => self.margin_l.unwrap_or(10).to_string(),
-                "MarginR" => self.margin_r.unwrap_or(10).to_string(),
-                "MarginV" => self.margin_v.unwrap_or(10).to_string(),
-                "MarginT" => self.margin_t.unwrap_or(0).to_string(),
-                "MarginB" => self.margin_b.unwrap_or(0).to_string(),
-                "Encoding" => self.encoding.unwrap_or(1).to_string(),
-                "AlphaLevel" => self.alpha_level.unwrap_or(0).to_string(),
-                "RelativeTo" => self.relative_to.clone().unwrap_or_else(|| "0".to_string()),
+                "scalex" => self.scale_x.unwrap_or(100.0).to_string(),
+                "scaley" => self.scale_y.unwrap_or(100.0).to_string(),
+                "spacing" => self.spacing.unwrap_or(0.0).to_string(),
+                "angle" => self.angle.unwrap_or(0.0).to_string(),
+                "borderstyle" => self.border_style.unwrap_or(1).to_string(),
+                "outline" => self.outline.unwrap_or(2.0).to_string(),
+                "shadow" => self.shadow.unwrap_or(0.0).to_string(),
+                "alignment" => self.alignment.unwrap_or(2).to_string(),
+                "marginl" => self.margin_l.unwrap_or(10).to_string(),
+                "marginr" => self.margin_r.unwrap_or(10).to_string(),
+                "marginv" => self.margin_v.unwrap_or(10).to_string(),
+                "margint" => self.margin_t.unwrap_or(0).to_string(),
+                "marginb" => self.margin_b.unwrap_or(0).to_string(),
+                "encoding" => self.encoding.unwrap_or(1).to_string(),
+                "alphalevel" => self.alpha_level.unwrap_or(0).to_string(),
+                "relativeto" => self.relative_to.clone().unwrap_or_else(|| "0".to_string()),
                 _ => {
                     return Err(EditorError::FormatLineError {
                         message: format!("Unknown style field: {field}"),
-- 
2.43.0


From 44e9aed838158069fbcd189f631c9de13f6918af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:48 +0000
Subject: [PATCH 14/76] fix: recognise V4++ style sections in the streaming
 parser and editor extensions

---
 crates/ass-core/parser/streaming/state/section_kind.rs          | 2 +-
 .../ass-editor/extensions/builtin/auto_complete/completions.rs  | 2 +-
 .../ass-editor/extensions/builtin/syntax_highlight/document.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/parser/streaming/state/section_kind.rs b/crates/ass-core/parser/streaming/state/section_kind.rs
index 6aa1d3e..76b6c74 100644
--- a/crates/ass-core/parser/streaming/state/section_kind.rs
+++ b/crates/ass-core/parser/streaming/state/section_kind.rs
@@ -41,7 +41,7 @@ impl SectionKind {
     pub fn from_header(header: &str) -> Self {
         match header.trim() {
             "Script Info" => Self::ScriptInfo,
-            "V4+ Styles" | "V4 Styles" => Self::Styles,
+            "V4+ Styles" | "V4 Styles" | "V4++ Styles" => Self::Styles,
             "Events" => Self::Events,
             "Fonts" => Self::Fonts,
             "Graphics" => Self::Graphics,
diff --git a/crates/ass-editor/extensions/builtin/auto_complete/completions.rs b/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
index 018e0f8..bd7bd0e 100644
--- a/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
+++ b/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
@@ -77,7 +77,7 @@ impl AutoCompleteExtension {
                 ),
                 ("YCbCr Matrix:", "Color matrix"),
             ],
-            "V4+ Styles" | "V4 Styles" => vec![
+            "V4+ Styles" | "V4 Styles" | "V4++ Styles" => vec![
                 ("Format:", "Column format definition"),
                 ("Style:", "Style definition"),
             ],
diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
index e210733..07ec585 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
@@ -50,7 +50,7 @@ impl SyntaxHighlightExtension {
                     "Script Info" | "Aegisub Project Garbage" => {
                         self.tokenize_info_line(&mut tokens, line, line_start)?;
                     }
-                    "V4+ Styles" | "V4 Styles" => {
+                    "V4+ Styles" | "V4 Styles" | "V4++ Styles" => {
                         if line.starts_with("Format:") {
                             self.tokenize_format_line(&mut tokens, line, line_start)?;
                         } else if line.starts_with("Style:") {
-- 
2.43.0


From bafb0d3ca405333c36ccbf238fcfba6e44cadf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:11 +0000
Subject: [PATCH 15/76] fix: find V4 and V4++ style sections when re-parsing
 incrementally

An edit inside such a section dropped it from the re-parsed script; looking for a header
also sliced the source inside multi-byte characters.
---
 .../parser/incremental/section_bounds.rs      | 33 ++++++++++++-------
 crates/ass-core/parser/script/incremental.rs  |  6 ++--
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/crates/ass-core/parser/incremental/section_bounds.rs b/crates/ass-core/parser/incremental/section_bounds.rs
index cf1b8f9..205c7d0 100644
--- a/crates/ass-core/parser/incremental/section_bounds.rs
+++ b/crates/ass-core/parser/incremental/section_bounds.rs
@@ -13,21 +13,30 @@ pub fn find_section_header_start(
     start_hint: usize,
     section_type: SectionType,
 ) -> Result<usize, ParseError> {
-    // Expected header for each section type
-    let header = match section_type {
-        SectionType::ScriptInfo => "[Script Info]",
-        SectionType::Styles => "[V4+ Styles]",
-        SectionType::Events => "[Events]",
-        SectionType::Fonts => "[Fonts]",
-        SectionType::Graphics => "[Graphics]",
+    // Expected headers for each section type
+    let headers: &[&str] = match section_type {
+        SectionType::ScriptInfo => &["[Script Info]"],
+        SectionType::Styles => &["[V4+ Styles]", "[V4 Styles]", "[V4++ Styles]"],
+        SectionType::Events => &["[Events]"],
+        SectionType::Fonts => &["[Fonts]"],
+        SectionType::Graphics => &["[Graphics]"],
     };
 
     // Search backwards from start_hint for the header
-    let search_start = start_hint.saturating_sub(header.len() + 100); // Look back up to 100 chars
-    let search_text = &source[search_start..start_hint.min(source.len())];
+    let mut search_end = start_hint.min(source.len());
+    while !source.is_char_boundary(search_end) {
+        search_end -= 1;
+    }
+    let mut search_start = search_end.saturating_sub(headers[0].len() + 100); // Look back up to 100 chars
+    while !source.is_char_boundary(search_start) {
+        search_start -= 1;
+    }
+    let search_text = &source[search_start..search_end];
 
-    search_text
-        .rfind(header)
+    headers
+        .iter()
+        .filter_map(|header| search_text.rfind(header))
+        .max()
         .map_or(Err(ParseError::SectionNotFound), |pos| {
             // Found the header, now find the start of the line
             let header_pos = search_start + pos;
@@ -50,6 +59,8 @@ pub fn find_section_end(
     let section_headers = [
         "[Script Info]",
         "[V4+ Styles]",
+        "[V4 Styles]",
+        "[V4++ Styles]",
         "[Events]",
         "[Fonts]",
         "[Graphics]",
diff --git a/crates/ass-core/parser/script/incremental.rs b/crates/ass-core/parser/script/incremental.rs
index 47ab296..3b45d71 100644
--- a/crates/ass-core/parser/script/incremental.rs
+++ b/crates/ass-core/parser/script/incremental.rs
@@ -104,6 +104,8 @@ impl<'a> Script<'a> {
         let section_headers = [
             ("[Script Info]", SectionType::ScriptInfo),
             ("[V4+ Styles]", SectionType::Styles),
+            ("[V4 Styles]", SectionType::Styles),
+            ("[V4++ Styles]", SectionType::Styles),
             ("[Events]", SectionType::Events),
             ("[Fonts]", SectionType::Fonts),
             ("[Graphics]", SectionType::Graphics),
@@ -117,7 +119,7 @@ impl<'a> Script<'a> {
                 // Find the section header in the new source
                 let header_str = section_headers
                     .iter()
-                    .find(|(_, t)| *t == section_type)
+                    .find(|(h, t)| *t == section_type && new_source.contains(h))
                     .map_or("[Unknown]", |(h, _)| *h);
 
                 // Find where this section starts in the new source
@@ -128,7 +130,7 @@ impl<'a> Script<'a> {
                         let next_section_type = self.sections[idx + 1].section_type();
                         let next_header = section_headers
                             .iter()
-                            .find(|(_, t)| *t == next_section_type)
+                            .find(|(h, t)| *t == next_section_type && new_source.contains(h))
                             .map_or("[Unknown]", |(h, _)| *h);
 
                         new_source[header_pos + header_str.len()..]
-- 
2.43.0


From 3c34d683239ec4f713f1144acaf5f2c164a87073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:07 +0000
Subject: [PATCH 16/76] fix: end a section at V4 and V4++ style headers when
 applying deltas

---
 crates/ass-editor/core/document/delta_apply.rs    | 2 ++
 crates/ass-editor/core/document/delta_sections.rs | 2 ++
 crates/ass-editor/core/document/delta_undo.rs     | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index a676159..27d3efe 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -133,6 +133,8 @@ impl EditorDocument {
         let section_headers = [
             "[Script Info]",
             "[V4+ Styles]",
+            "[V4 Styles]",
+            "[V4++ Styles]",
             "[Events]",
             "[Fonts]",
             "[Graphics]",
diff --git a/crates/ass-editor/core/document/delta_sections.rs b/crates/ass-editor/core/document/delta_sections.rs
index 78235cb..4aa6c45 100644
--- a/crates/ass-editor/core/document/delta_sections.rs
+++ b/crates/ass-editor/core/document/delta_sections.rs
@@ -160,6 +160,8 @@ impl EditorDocument {
         let section_headers = [
             "[Script Info]",
             "[V4+ Styles]",
+            "[V4 Styles]",
+            "[V4++ Styles]",
             "[Events]",
             "[Fonts]",
             "[Graphics]",
diff --git a/crates/ass-editor/core/document/delta_undo.rs b/crates/ass-editor/core/document/delta_undo.rs
index d0a7f8d..d3e8d4c 100644
--- a/crates/ass-editor/core/document/delta_undo.rs
+++ b/crates/ass-editor/core/document/delta_undo.rs
@@ -97,6 +97,8 @@ impl EditorDocument {
         let section_headers = [
             "[Script Info]",
             "[V4+ Styles]",
+            "[V4 Styles]",
+            "[V4++ Styles]",
             "[Events]",
             "[Fonts]",
             "[Graphics]",
-- 
2.43.0


From 821ebe2925b95a5217163e269ee304e770613362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 17/76] fix: refuse edits that begin or end inside a character

---
 .../ass-editor/core/document/editing_raw.rs   | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 9f8e595..7fbd4a2 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -7,6 +7,9 @@ use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
 use crate::core::position::{Position, Range};
 
+#[cfg(not(feature = "std"))]
+use alloc::format;
+
 impl EditorDocument {
     /// Insert text at position (low-level operation without undo)
     pub(crate) fn insert_raw(&mut self, pos: Position, text: &str) -> Result<()> {
@@ -16,6 +19,7 @@ impl EditorDocument {
                 length: self.len_bytes(),
             });
         }
+        self.require_char_boundary(pos.offset)?;
 
         #[cfg(feature = "rope")]
         {
@@ -41,6 +45,8 @@ impl EditorDocument {
                 length: self.len_bytes(),
             });
         }
+        self.require_char_boundary(range.start.offset)?;
+        self.require_char_boundary(range.end.offset)?;
 
         #[cfg(feature = "rope")]
         {
@@ -65,4 +71,24 @@ impl EditorDocument {
         self.insert_raw(range.start, text)?;
         Ok(())
     }
+
+    /// Refuse an offset inside a character: the rope would round it down, and the
+    /// recorded position would no longer say where the edit happened.
+    fn require_char_boundary(&self, offset: usize) -> Result<()> {
+        #[cfg(feature = "rope")]
+        let boundary = self
+            .text_rope
+            .char_to_byte(self.text_rope.byte_to_char(offset))
+            == offset;
+        #[cfg(not(feature = "rope"))]
+        let boundary = self.text_content.is_char_boundary(offset);
+
+        if boundary {
+            Ok(())
+        } else {
+            Err(EditorError::CommandFailed {
+                message: format!("offset {offset} is inside a character"),
+            })
+        }
+    }
 }
-- 
2.43.0


From 4197c6b02addee9c0e74e6d2ffeb91875b51fee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:29 +0000
Subject: [PATCH 18/76] fix: a text change drops cached validation results
 whichever way it is made

---
 crates/ass-editor/core/document/editing_raw.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 7fbd4a2..37e6e1b 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -33,6 +33,7 @@ impl EditorDocument {
         }
 
         self.modified = true;
+        self.validator.clear_cache();
         Ok(())
     }
 
@@ -62,6 +63,7 @@ impl EditorDocument {
         }
 
         self.modified = true;
+        self.validator.clear_cache();
         Ok(())
     }
 
-- 
2.43.0


From c610433014ea57fbfd11a3aced1f08a7630c85bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:42 +0000
Subject: [PATCH 19/76] fix: undoing a replacement removes all of the text it
 inserted

---
 crates/ass-editor/core/document/undo_redo.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index b62b543..57bc983 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -47,10 +47,13 @@ impl EditorDocument {
                     result.new_cursor = entry.cursor_before;
                 }
                 Operation::Replace {
-                    range, old_text, ..
+                    range,
+                    old_text,
+                    new_text,
                 } => {
-                    // Undo replace by restoring old text
-                    self.replace_raw(*range, old_text)?;
+                    // Undo replace by restoring old text in place of the new one
+                    let new_end = Position::new(range.start.offset + new_text.len());
+                    self.replace_raw(Range::new(range.start, new_end), old_text)?;
                     let end_pos = Position::new(range.start.offset + old_text.len());
                     result.modified_range = Some(Range::new(range.start, end_pos));
                     result.new_cursor = entry.cursor_before;
-- 
2.43.0


From b4356e718ef6e583edc6a550c55f6dfdb6328be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 20/76] fix: a redo keeps the operations still to be redone

---
 crates/ass-editor/core/document/undo_redo.rs | 4 ++--
 crates/ass-editor/core/history/stack_impl.rs | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index 57bc983..56a27ee 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -156,8 +156,8 @@ impl EditorDocument {
                 entry.cursor_before,
             );
 
-            // Push back to undo stack
-            self.history.stack_mut().push(new_entry);
+            // Push back to undo stack, keeping the entries still to be redone
+            self.history.stack_mut().push_redone(new_entry);
 
             result.message = Some("Redo successful".to_string());
             Ok(result)
diff --git a/crates/ass-editor/core/history/stack_impl.rs b/crates/ass-editor/core/history/stack_impl.rs
index d647100..c316f4f 100644
--- a/crates/ass-editor/core/history/stack_impl.rs
+++ b/crates/ass-editor/core/history/stack_impl.rs
@@ -73,6 +73,14 @@ impl UndoStack {
         }
     }
 
+    /// Return a redone entry to the undo stack; unlike [`Self::push`] this is
+    /// not a new operation, so the entries still to be redone stay valid
+    pub fn push_redone(&mut self, entry: HistoryEntry) {
+        self.current_memory += entry.memory_usage;
+        self.undo_stack.push_front(entry);
+        self.enforce_limits();
+    }
+
     /// Push an entry onto the redo stack
     pub fn push_redo(&mut self, entry: HistoryEntry) {
         self.current_memory += entry.memory_usage;
-- 
2.43.0


From e374b372358c4b37602cfe755344342dc9cacbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:20 +0000
Subject: [PATCH 21/76] fix: incremental edits start from the document's
 current text

---
 crates/ass-editor/core/incremental/apply.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/ass-editor/core/incremental/apply.rs b/crates/ass-editor/core/incremental/apply.rs
index 5ccf12f..2412a4f 100644
--- a/crates/ass-editor/core/incremental/apply.rs
+++ b/crates/ass-editor/core/incremental/apply.rs
@@ -28,6 +28,11 @@ impl IncrementalParser {
             return self.full_reparse(document_text);
         }
 
+        // Edits made by other means since the last call are missing from the cache
+        if self.cached_script.as_deref() != Some(document_text) {
+            self.initialize_cache(document_text);
+        }
+
         // Validate range
         if range.end.offset > document_text.len() || range.start.offset > range.end.offset {
             return Err(EditorError::InvalidRange {
-- 
2.43.0


From 8575e501ce844a1d4decbdd9b04b50a820b3ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:51 +0000
Subject: [PATCH 22/76] fix: undo of an incremental edit restores the replaced
 text

---
 .../core/document/incremental_edit.rs         | 29 +++++++++----------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/crates/ass-editor/core/document/incremental_edit.rs b/crates/ass-editor/core/document/incremental_edit.rs
index 0218252..507687b 100644
--- a/crates/ass-editor/core/document/incremental_edit.rs
+++ b/crates/ass-editor/core/document/incremental_edit.rs
@@ -39,10 +39,7 @@ impl EditorDocument {
         }
 
         // Get the old text for undo data
-        #[cfg(feature = "std")]
         let old_text = self.text_range(range)?;
-        #[cfg(not(feature = "std"))]
-        let _old_text = self.text_range(range)?;
 
         // Apply change with incremental parsing (includes fallback to full parse)
         let current_text = self.text();
@@ -80,13 +77,21 @@ impl EditorDocument {
             }
         };
 
-        // Create undo data from the delta (must be captured BEFORE applying changes)
-        let undo_data = self.capture_delta_undo_data(&delta)?;
+        // Apply the text change
+        if let Err(e) = self.replace_raw(range, new_text) {
+            // The parser has already taken the change as made
+            self.incremental_parser.clear_cache();
+            return Err(e);
+        }
 
-        // Create delta operation for history
-        let operation = Operation::Delta {
-            forward: delta.clone(),
-            undo_data,
+        // Record the replaced text: the delta alone cannot restore it
+        let operation = Operation::Replace {
+            range,
+            #[cfg(feature = "std")]
+            old_text: old_text.clone(),
+            #[cfg(not(feature = "std"))]
+            old_text,
+            new_text: new_text.to_string(),
         };
 
         // Create command result
@@ -103,12 +108,6 @@ impl EditorDocument {
             &result_with_delta,
         );
 
-        // Apply the text change
-        self.replace_raw(range, new_text)?;
-
-        // Mark as modified
-        self.modified = true;
-
         // Emit event
         #[cfg(feature = "std")]
         self.emit(DocumentEvent::TextReplaced {
-- 
2.43.0


From b51735f3159a4b323a59f61d53d09f7839bf9e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:55 +0000
Subject: [PATCH 23/76] fix: announce quick incremental edits like every other
 edit

---
 .../ass-editor/core/document/incremental_fast.rs   | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/core/document/incremental_fast.rs b/crates/ass-editor/core/document/incremental_fast.rs
index bcb1df5..f1791be 100644
--- a/crates/ass-editor/core/document/incremental_fast.rs
+++ b/crates/ass-editor/core/document/incremental_fast.rs
@@ -10,6 +10,9 @@ use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
 use ass_core::parser::script::ScriptDeltaOwned;
 
+#[cfg(feature = "std")]
+use crate::events::DocumentEvent;
+
 #[cfg(not(feature = "std"))]
 use alloc::{
     string::{String, ToString},
@@ -46,7 +49,7 @@ impl EditorDocument {
         let operation = Operation::Replace {
             range,
             new_text: new_text.to_string(),
-            old_text,
+            old_text: old_text.clone(),
         };
 
         // Create result
@@ -59,8 +62,13 @@ impl EditorDocument {
         self.history
             .record_operation(operation, "Fast character insert".to_string(), &result);
 
-        // Mark as modified
-        self.modified = true;
+        // Emit event
+        #[cfg(feature = "std")]
+        self.emit(DocumentEvent::TextReplaced {
+            range,
+            old_text,
+            new_text: new_text.to_string(),
+        });
 
         // Return minimal delta
         Ok(ScriptDeltaOwned {
-- 
2.43.0


From 753fd319097acdf8b19f506f992f63fa4fa6a261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 24/76] fix: applying a script delta is undoable and leaves
 nothing behind when it fails

---
 .../ass-editor/core/document/delta_apply.rs   |  25 ++--
 crates/ass-editor/core/document/delta_undo.rs | 121 ------------------
 .../ass-editor/core/document/editing_raw.rs   |  67 +++++++++-
 crates/ass-editor/core/document/mod.rs        |   2 -
 crates/ass-editor/core/document/undo_redo.rs  |   2 +-
 5 files changed, 76 insertions(+), 141 deletions(-)
 delete mode 100644 crates/ass-editor/core/document/delta_undo.rs

diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index 27d3efe..5085d16 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -18,29 +18,22 @@ use alloc::string::ToString;
 impl EditorDocument {
     /// Apply a script delta and record it with undo data
     pub fn apply_script_delta(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
-        use crate::core::history::Operation;
-
-        // Capture undo data before applying
-        let undo_data = self.capture_delta_undo_data(&delta)?;
-
-        // Apply delta
-        self.apply_script_delta_internal(delta.clone())?;
-
-        // Record with undo data
-        let operation = Operation::Delta {
-            forward: delta,
-            undo_data,
-        };
+        // Apply the delta, all of it or nothing
+        let before = self.text();
+        if let Err(e) = self.apply_script_delta_internal(delta) {
+            self.restore_text(&before)?;
+            return Err(e);
+        }
 
+        // Record what it changed
         let result = CommandResult::success();
-        self.history
-            .record_operation(operation, "Apply delta".to_string(), &result);
+        self.record_change_since(&before, "Apply delta".to_string(), &result);
 
         Ok(())
     }
 
     /// Apply a script delta for efficient incremental parsing (internal)
-    fn apply_script_delta_internal(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
+    pub(super) fn apply_script_delta_internal(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
         // Parse the current script to get sections
         let current_content = self.text();
         let script = Script::parse(&current_content).map_err(EditorError::from)?;
diff --git a/crates/ass-editor/core/document/delta_undo.rs b/crates/ass-editor/core/document/delta_undo.rs
deleted file mode 100644
index d3e8d4c..0000000
--- a/crates/ass-editor/core/document/delta_undo.rs
+++ /dev/null
@@ -1,121 +0,0 @@
-//! Capturing undo data for script deltas
-//!
-//! Snapshots the pre-edit text of sections that a delta will remove or
-//! modify so the change can later be reversed. Exposed as `pub(super)` for
-//! the apply and incremental-edit submodules.
-
-use super::EditorDocument;
-use crate::core::errors::{EditorError, Result};
-use ass_core::parser::ast::Section;
-use ass_core::parser::script::ScriptDeltaOwned;
-
-#[cfg(not(feature = "std"))]
-use alloc::{
-    string::{String, ToString},
-    vec::Vec,
-};
-
-impl EditorDocument {
-    /// Capture undo data before applying a delta
-    pub(super) fn capture_delta_undo_data(
-        &self,
-        delta: &ScriptDeltaOwned,
-    ) -> Result<crate::core::history::DeltaUndoData> {
-        let mut removed_sections = Vec::new();
-        let mut modified_sections = Vec::new();
-
-        // First, get the current content for section extraction
-        let content = self.text();
-
-        // For incremental edits, use simplified undo data to avoid expensive full parsing
-        // Only do detailed section analysis for larger operations
-        #[cfg(feature = "stream")]
-        let is_small_edit = delta.added.len() + delta.removed.len() + delta.modified.len() <= 2;
-        #[cfg(not(feature = "stream"))]
-        let is_small_edit = false;
-
-        if is_small_edit {
-            // For small incremental edits, skip expensive undo data capture
-            // The basic text-based undo in edit_incremental will handle this
-        } else {
-            // For larger operations, do full undo data capture
-            let _ = self.parse_script_with(|script| {
-                // Capture removed sections
-                for &index in &delta.removed {
-                    if let Some(section) = script.sections().get(index) {
-                        match self.extract_section_text(&content, section) {
-                            Ok(section_text) => removed_sections.push((index, section_text)),
-                            Err(_) => {
-                                // If we can't extract the section text, store a placeholder
-                                removed_sections.push((index, String::new()));
-                            }
-                        }
-                    }
-                }
-
-                // Capture original state of modified sections
-                for (index, _) in &delta.modified {
-                    if let Some(section) = script.sections().get(*index) {
-                        match self.extract_section_text(&content, section) {
-                            Ok(section_text) => modified_sections.push((*index, section_text)),
-                            Err(_) => {
-                                // If we can't extract the section text, store a placeholder
-                                modified_sections.push((*index, String::new()));
-                            }
-                        }
-                    }
-                }
-
-                Ok::<(), EditorError>(())
-            })?;
-        }
-
-        Ok(crate::core::history::DeltaUndoData {
-            removed_sections,
-            modified_sections,
-        })
-    }
-
-    /// Extract section text from content
-    fn extract_section_text(&self, content: &str, section: &Section) -> Result<String> {
-        let header = match section {
-            Section::ScriptInfo(_) => "[Script Info]",
-            Section::Styles(_) => "[V4+ Styles]",
-            Section::Events(_) => "[Events]",
-            Section::Fonts(_) => "[Fonts]",
-            Section::Graphics(_) => "[Graphics]",
-        };
-
-        // Find the header in the content
-        let start = content
-            .find(header)
-            .ok_or_else(|| EditorError::SectionNotFound {
-                section: header.to_string(),
-            })?;
-
-        // Find the next section header or end of document
-        let section_headers = [
-            "[Script Info]",
-            "[V4+ Styles]",
-            "[V4 Styles]",
-            "[V4++ Styles]",
-            "[Events]",
-            "[Fonts]",
-            "[Graphics]",
-        ];
-
-        let end = content[start + header.len()..]
-            .find(|_c: char| {
-                for sh in &section_headers {
-                    if content[start + header.len()..].starts_with(sh) {
-                        return true;
-                    }
-                }
-                false
-            })
-            .map(|pos| start + header.len() + pos)
-            .unwrap_or(content.len());
-
-        Ok(content[start..end].to_string())
-    }
-}
diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 37e6e1b..2d1cf10 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -4,11 +4,19 @@
 //! are the building blocks used by the higher-level editing and history APIs.
 
 use super::EditorDocument;
+use crate::commands::CommandResult;
 use crate::core::errors::{EditorError, Result};
+use crate::core::history::Operation;
 use crate::core::position::{Position, Range};
 
+#[cfg(feature = "std")]
+use crate::events::DocumentEvent;
+
 #[cfg(not(feature = "std"))]
-use alloc::format;
+use alloc::{
+    format,
+    string::{String, ToString},
+};
 
 impl EditorDocument {
     /// Insert text at position (low-level operation without undo)
@@ -93,4 +101,61 @@ impl EditorDocument {
             })
         }
     }
+
+    /// Put back the text a failed multi-step operation started from
+    pub(super) fn restore_text(&mut self, text: &str) -> Result<()> {
+        let all = Range::new(Position::new(0), Position::new(self.len_bytes()));
+        self.replace_raw(all, text)
+    }
+
+    /// Record and announce, as one replacement, what changed since the text was `before`
+    pub(super) fn record_change_since(
+        &mut self,
+        before: &str,
+        description: String,
+        result: &CommandResult,
+    ) {
+        let after = self.text();
+        if after == before {
+            return;
+        }
+
+        let start = before
+            .char_indices()
+            .zip(after.chars())
+            .find(|((_, b), a)| b != a)
+            .map_or(before.len().min(after.len()), |((at, _), _)| at);
+        let same_end: usize = before[start..]
+            .chars()
+            .rev()
+            .zip(after[start..].chars().rev())
+            .take_while(|(b, a)| b == a)
+            .map(|(b, _)| b.len_utf8())
+            .sum();
+        let range = Range::new(
+            Position::new(start),
+            Position::new(before.len() - same_end),
+        );
+        let old_text = before[start..before.len() - same_end].to_string();
+        let new_text = after[start..after.len() - same_end].to_string();
+
+        let mut result = result.clone();
+        result.content_changed = true;
+        self.history.record_operation(
+            Operation::Replace {
+                range,
+                old_text: old_text.clone(),
+                new_text: new_text.clone(),
+            },
+            description,
+            &result,
+        );
+
+        #[cfg(feature = "std")]
+        self.emit(DocumentEvent::TextReplaced {
+            range,
+            old_text,
+            new_text,
+        });
+    }
 }
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index ccf331f..7fe26bd 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -24,8 +24,6 @@ mod delta_apply;
 #[cfg(feature = "stream")]
 mod delta_sections;
 #[cfg(feature = "stream")]
-mod delta_undo;
-#[cfg(feature = "stream")]
 mod incremental_edit;
 #[cfg(feature = "stream")]
 mod incremental_fast;
diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index 56a27ee..d033930 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -137,7 +137,7 @@ impl EditorDocument {
                     undo_data: _,
                 } => {
                     // Re-apply the delta
-                    self.apply_script_delta(forward.clone())?;
+                    self.apply_script_delta_internal(forward.clone())?;
                     result.message = Some("Delta re-applied".to_string());
                 }
             }
-- 
2.43.0


From 814eba748bd990c79707d433190239d27be508a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:55 +0000
Subject: [PATCH 25/76] fix: execute_command records what the command changed,
 or undoes a command that fails

---
 .../ass-editor/core/document/delta_apply.rs   |  3 +-
 .../ass-editor/core/document/editing_raw.rs   | 10 +-
 crates/ass-editor/core/document/validation.rs | 96 ++++++-------------
 .../core/thread_safety/sync_document.rs       |  2 +-
 4 files changed, 38 insertions(+), 73 deletions(-)

diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index 5085d16..69a1915 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -20,8 +20,9 @@ impl EditorDocument {
     pub fn apply_script_delta(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
         // Apply the delta, all of it or nothing
         let before = self.text();
+        let modified = self.modified;
         if let Err(e) = self.apply_script_delta_internal(delta) {
-            self.restore_text(&before)?;
+            self.restore_text(&before, modified)?;
             return Err(e);
         }
 
diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 2d1cf10..bbd40fb 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -103,9 +103,13 @@ impl EditorDocument {
     }
 
     /// Put back the text a failed multi-step operation started from
-    pub(super) fn restore_text(&mut self, text: &str) -> Result<()> {
-        let all = Range::new(Position::new(0), Position::new(self.len_bytes()));
-        self.replace_raw(all, text)
+    pub(super) fn restore_text(&mut self, text: &str, modified: bool) -> Result<()> {
+        if self.text() != text {
+            let all = Range::new(Position::new(0), Position::new(self.len_bytes()));
+            self.replace_raw(all, text)?;
+        }
+        self.modified = modified;
+        Ok(())
     }
 
     /// Record and announce, as one replacement, what changed since the text was `before`
diff --git a/crates/ass-editor/core/document/validation.rs b/crates/ass-editor/core/document/validation.rs
index ecac929..cec0cef 100644
--- a/crates/ass-editor/core/document/validation.rs
+++ b/crates/ass-editor/core/document/validation.rs
@@ -5,11 +5,10 @@
 
 use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
-use crate::core::position::{Position, Range};
 use ass_core::parser::Script;
 
 #[cfg(not(feature = "std"))]
-use alloc::string::{String, ToString};
+use alloc::string::ToString;
 
 impl EditorDocument {
     /// Parse the current document content into a Script
@@ -46,74 +45,35 @@ impl EditorDocument {
         &mut self,
         command: &dyn crate::commands::EditorCommand,
     ) -> Result<crate::commands::CommandResult> {
-        use crate::core::history::Operation;
-
-        // Get the cursor position before
-        let _cursor_before = self.cursor_position();
-
-        // Execute the command
-        let result = command.execute(self)?;
-
-        // Only record if the command changed content
-        if result.content_changed {
-            // Determine the operation based on the result
-            let operation = if let Some(range) = result.modified_range {
-                if range.is_empty() {
-                    // This was an insertion
-                    let inserted_text = self.text_range(Range::new(
-                        range.start,
-                        Position::new(
-                            range.start.offset
-                                + result
-                                    .new_cursor
-                                    .map_or(0, |c| c.offset - range.start.offset),
-                        ),
-                    ))?;
-                    Operation::Insert {
-                        position: range.start,
-                        text: inserted_text,
-                    }
-                } else {
-                    // For batch commands and complex operations, we need to be more careful
-                    // Store enough information to properly undo
-                    // This is a simplified approach - ideally each command would handle its own undo
-                    let cmd_desc = command.description();
-                    if cmd_desc.contains("batch") || cmd_desc.contains("Multiple") {
-                        // For batch operations, we don't have enough info
-                        // Just use a simple insert operation
-                        Operation::Insert {
-                            position: range.start,
-                            text: String::new(),
-                        }
-                    } else {
-                        // For simple operations, use the range info
-                        Operation::Replace {
-                            range,
-                            old_text: String::new(), // We don't have the old text
-                            new_text: self.text_range(range).unwrap_or_default(),
-                        }
-                    }
-                }
-            } else {
-                // No range info - create a generic operation
-                Operation::Insert {
-                    position: Position::new(0),
-                    text: String::new(),
-                }
-            };
-
-            // Update cursor if needed
-            if let Some(new_cursor) = result.new_cursor {
-                self.set_cursor_position(Some(new_cursor));
-            }
+        let before = self.text();
+        let modified = self.modified;
+
+        // Edits the command makes through the recording methods are part of
+        // this one operation: keep them out of the history and event stream
+        let cursor = self.cursor_position();
+        let history = core::mem::take(&mut self.history);
+        self.set_cursor_position(cursor);
+        #[cfg(feature = "std")]
+        let event_tx = self.event_tx.take();
+
+        let outcome = command.execute(self);
+
+        self.history = history;
+        #[cfg(feature = "std")]
+        {
+            self.event_tx = event_tx;
+        }
 
-            // Record in history
-            self.history
-                .record_operation(operation, command.description().to_string(), &result);
+        let result = match outcome {
+            Ok(result) if result.success => result,
+            failed => {
+                // All of the command or nothing
+                self.restore_text(&before, modified)?;
+                return failed;
+            }
+        };
 
-            // Clear validation cache since content changed
-            self.validator.clear_cache();
-        }
+        self.record_change_since(&before, command.description().to_string(), &result);
 
         Ok(result)
     }
diff --git a/crates/ass-editor/core/thread_safety/sync_document.rs b/crates/ass-editor/core/thread_safety/sync_document.rs
index 48da221..cc0b037 100644
--- a/crates/ass-editor/core/thread_safety/sync_document.rs
+++ b/crates/ass-editor/core/thread_safety/sync_document.rs
@@ -79,7 +79,7 @@ impl SyncDocument {
 
         // Now execute the command with write access
         let mut doc = self.write()?;
-        command.execute(&mut doc)
+        doc.execute_command(&command)
     }
 
     /// Try to get a read-only reference without blocking
-- 
2.43.0


From 08a3f2553c2e8d58771702589e6fd2cbe4812619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:00 +0000
Subject: [PATCH 26/76] fix: edits made through the fluent API can be undone

---
 crates/ass-editor/commands/fluent_builder.rs  | 16 +++++++--------
 .../ass-editor/core/document/editing_raw.rs   |  5 +----
 .../ass-editor/core/fluent/event_deleter.rs   | 16 +++++++--------
 .../core/fluent/event_merge_timing.rs         | 14 ++++++-------
 crates/ass-editor/core/fluent/event_ops.rs    | 10 ++++------
 .../core/fluent/event_toggle_effect.rs        | 12 +++++------
 crates/ass-editor/core/fluent/karaoke.rs      |  4 ++--
 .../core/fluent/karaoke_builders.rs           | 20 +++++++++----------
 crates/ass-editor/core/fluent/media.rs        | 20 +++++++++----------
 crates/ass-editor/core/fluent/script_info.rs  | 11 +++++-----
 crates/ass-editor/core/fluent/style.rs        | 11 +++++-----
 crates/ass-editor/core/fluent/tag.rs          | 20 +++++++++----------
 12 files changed, 75 insertions(+), 84 deletions(-)

diff --git a/crates/ass-editor/commands/fluent_builder.rs b/crates/ass-editor/commands/fluent_builder.rs
index 740295e..ee2f190 100644
--- a/crates/ass-editor/commands/fluent_builder.rs
+++ b/crates/ass-editor/commands/fluent_builder.rs
@@ -2,9 +2,7 @@
 
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
-use super::{
-    CommandResult, DeleteTextCommand, EditorCommand, InsertTextCommand, ReplaceTextCommand,
-};
+use super::{CommandResult, DeleteTextCommand, InsertTextCommand, ReplaceTextCommand};
 
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
@@ -62,7 +60,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Position not set for insert operation"))?;
 
         let command = InsertTextCommand::new(position, text.to_string());
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 
     /// Delete text in the current range
@@ -72,7 +70,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Range not set for delete operation"))?;
 
         let command = DeleteTextCommand::new(range);
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 
     /// Replace text in the current range
@@ -82,7 +80,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Range not set for replace operation"))?;
 
         let command = ReplaceTextCommand::new(range, new_text.to_string());
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 }
 
@@ -108,16 +106,16 @@ impl DocumentCommandExt for EditorDocument {
 
     fn insert_at(&mut self, position: Position, text: &str) -> Result<CommandResult> {
         let command = InsertTextCommand::new(position, text.to_string());
-        command.execute(self)
+        self.execute_command(&command)
     }
 
     fn delete_range(&mut self, range: Range) -> Result<CommandResult> {
         let command = DeleteTextCommand::new(range);
-        command.execute(self)
+        self.execute_command(&command)
     }
 
     fn replace_range(&mut self, range: Range, text: &str) -> Result<CommandResult> {
         let command = ReplaceTextCommand::new(range, text.to_string());
-        command.execute(self)
+        self.execute_command(&command)
     }
 }
diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index bbd40fb..ea40bae 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -136,10 +136,7 @@ impl EditorDocument {
             .take_while(|(b, a)| b == a)
             .map(|(b, _)| b.len_utf8())
             .sum();
-        let range = Range::new(
-            Position::new(start),
-            Position::new(before.len() - same_end),
-        );
+        let range = Range::new(Position::new(start), Position::new(before.len() - same_end));
         let old_text = before[start..before.len() - same_end].to_string();
         let new_text = after[start..after.len() - same_end].to_string();
 
diff --git a/crates/ass-editor/core/fluent/event_deleter.rs b/crates/ass-editor/core/fluent/event_deleter.rs
index 349dd65..0546d9e 100644
--- a/crates/ass-editor/core/fluent/event_deleter.rs
+++ b/crates/ass-editor/core/fluent/event_deleter.rs
@@ -1,7 +1,7 @@
 //! Fluent API for deleting events based on queries.
 
 use super::EventQuery;
-use crate::commands::{BatchDeleteEventsCommand, EditorCommand};
+use crate::commands::BatchDeleteEventsCommand;
 use crate::core::{EditorDocument, Result};
 use ass_core::parser::ast::EventType;
 
@@ -35,7 +35,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_type(EventType::Dialogue)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -45,7 +45,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_type(EventType::Comment)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -55,7 +55,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_time_range(start_cs, end_cs)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -65,7 +65,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_style(style)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -75,7 +75,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_text(text)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -83,7 +83,7 @@ impl<'a> EventDeleter<'a> {
     pub fn all(self) -> Result<&'a mut EditorDocument> {
         let indices = EventQuery::new(self.document).indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -93,7 +93,7 @@ impl<'a> EventDeleter<'a> {
             return Ok(self.document);
         }
         let command = BatchDeleteEventsCommand::new(self.indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/event_merge_timing.rs b/crates/ass-editor/core/fluent/event_merge_timing.rs
index 597ca06..300b9b9 100644
--- a/crates/ass-editor/core/fluent/event_merge_timing.rs
+++ b/crates/ass-editor/core/fluent/event_merge_timing.rs
@@ -1,6 +1,6 @@
 //! Fluent API builders for merging events and adjusting their timing.
 
-use crate::commands::{EditorCommand, MergeEventsCommand, TimingAdjustCommand};
+use crate::commands::{MergeEventsCommand, TimingAdjustCommand};
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
@@ -43,7 +43,7 @@ impl<'a> EventMerger<'a> {
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
         let command = MergeEventsCommand::new(self.first_index, self.second_index)
             .with_separator(self.separator);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -78,28 +78,28 @@ impl<'a> EventTimer<'a> {
     /// Shift start and end times by the same offset (preserves duration)
     pub fn shift(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, offset_cs, offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Shift only start times (changes duration)
     pub fn shift_start(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, offset_cs, 0);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Shift only end times (changes duration)
     pub fn shift_end(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, 0, offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Scale duration by a factor
     pub fn scale_duration(self, factor: f64) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::scale_duration(self.event_indices, factor);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -110,7 +110,7 @@ impl<'a> EventTimer<'a> {
         end_offset_cs: i32,
     ) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, start_offset_cs, end_offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/event_ops.rs b/crates/ass-editor/core/fluent/event_ops.rs
index 34e3f2a..dd12b68 100644
--- a/crates/ass-editor/core/fluent/event_ops.rs
+++ b/crates/ass-editor/core/fluent/event_ops.rs
@@ -4,9 +4,7 @@ use super::event_deleter::EventDeleter;
 use super::event_merge_timing::{EventMerger, EventTimer};
 use super::event_toggle_effect::{EventEffector, EventToggler};
 use super::{EventAccessor, EventInfo, EventQuery, EventSortCriteria, OwnedEvent};
-use crate::commands::{
-    BatchDeleteEventsCommand, DeleteEventCommand, EditorCommand, SplitEventCommand,
-};
+use crate::commands::{BatchDeleteEventsCommand, DeleteEventCommand, SplitEventCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 use ass_core::parser::ast::{Event, EventType, Section};
 
@@ -27,7 +25,7 @@ impl<'a> EventOps<'a> {
     /// Split an event at a specific time
     pub fn split(self, event_index: usize, split_time: &str) -> Result<&'a mut EditorDocument> {
         let command = SplitEventCommand::new(event_index, split_time.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -151,14 +149,14 @@ impl<'a> EventOps<'a> {
     /// Delete a single event by index
     pub fn delete(self, index: usize) -> Result<&'a mut EditorDocument> {
         let command = DeleteEventCommand::new(index);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Delete multiple events by indices
     pub fn delete_multiple(self, indices: Vec<usize>) -> Result<&'a mut EditorDocument> {
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/event_toggle_effect.rs b/crates/ass-editor/core/fluent/event_toggle_effect.rs
index 4853697..7149450 100644
--- a/crates/ass-editor/core/fluent/event_toggle_effect.rs
+++ b/crates/ass-editor/core/fluent/event_toggle_effect.rs
@@ -1,6 +1,6 @@
 //! Fluent API builders for toggling event types and modifying effects.
 
-use crate::commands::{EditorCommand, EffectOperation, EventEffectCommand, ToggleEventTypeCommand};
+use crate::commands::{EffectOperation, EventEffectCommand, ToggleEventTypeCommand};
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
@@ -36,7 +36,7 @@ impl<'a> EventToggler<'a> {
     /// Execute the toggle
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
         let command = ToggleEventTypeCommand::new(self.event_indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -71,21 +71,21 @@ impl<'a> EventEffector<'a> {
     /// Set the effect (replace existing)
     pub fn set(self, effect: &str) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::set_effect(self.event_indices, effect.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Clear all effects
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::clear_effect(self.event_indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Append to existing effect
     pub fn append(self, effect: &str) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::append_effect(self.event_indices, effect.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -96,7 +96,7 @@ impl<'a> EventEffector<'a> {
             effect.to_string(),
             EffectOperation::Prepend,
         );
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/karaoke.rs b/crates/ass-editor/core/fluent/karaoke.rs
index 108e29a..ba6ad49 100644
--- a/crates/ass-editor/core/fluent/karaoke.rs
+++ b/crates/ass-editor/core/fluent/karaoke.rs
@@ -1,7 +1,7 @@
 //! Fluent API for ASS karaoke operations and the karaoke generator builder.
 
 use super::karaoke_builders::{KaraokeAdjuster, KaraokeApplicator, KaraokeSplitter};
-use crate::commands::{EditorCommand, GenerateKaraokeCommand, KaraokeType};
+use crate::commands::{GenerateKaraokeCommand, KaraokeType};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
@@ -128,7 +128,7 @@ impl<'a> KaraokeGenerator<'a> {
             command = command.manual_syllables();
         }
 
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/karaoke_builders.rs b/crates/ass-editor/core/fluent/karaoke_builders.rs
index dce4b1e..a041c29 100644
--- a/crates/ass-editor/core/fluent/karaoke_builders.rs
+++ b/crates/ass-editor/core/fluent/karaoke_builders.rs
@@ -5,7 +5,7 @@
 //! sibling [`super::karaoke`] module.
 
 use crate::commands::{
-    AdjustKaraokeCommand, ApplyKaraokeCommand, EditorCommand, KaraokeType, SplitKaraokeCommand,
+    AdjustKaraokeCommand, ApplyKaraokeCommand, KaraokeType, SplitKaraokeCommand,
 };
 use crate::core::{EditorDocument, Range, Result};
 
@@ -36,7 +36,7 @@ impl<'a> KaraokeSplitter<'a> {
             command = command.duration(duration);
         }
 
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -51,28 +51,28 @@ impl<'a> KaraokeAdjuster<'a> {
     /// Scale timing by factor
     pub fn scale(self, factor: f32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::scale(self.range, factor);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Offset timing by centiseconds
     pub fn offset(self, offset: i32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::offset(self.range, offset);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Set all timing to specific duration
     pub fn set_all(self, duration: u32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::set_all(self.range, duration);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Apply custom timing to each syllable
     pub fn custom(self, timings: Vec<u32>) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::custom(self.range, timings);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -87,7 +87,7 @@ impl<'a> KaraokeApplicator<'a> {
     /// Apply equal timing
     pub fn equal(self, duration: u32, karaoke_type: KaraokeType) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::equal(self.range, duration, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -99,7 +99,7 @@ impl<'a> KaraokeApplicator<'a> {
         karaoke_type: KaraokeType,
     ) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::beat(self.range, bpm, beats_per_syllable, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -110,14 +110,14 @@ impl<'a> KaraokeApplicator<'a> {
         karaoke_type: KaraokeType,
     ) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::pattern(self.range, durations, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Import timing from another event
     pub fn import_from(self, source_event_index: usize) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::import_from(self.range, source_event_index);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/media.rs b/crates/ass-editor/core/fluent/media.rs
index 5146d46..5d958f9 100644
--- a/crates/ass-editor/core/fluent/media.rs
+++ b/crates/ass-editor/core/fluent/media.rs
@@ -1,8 +1,8 @@
 //! Fluent API for managing embedded fonts and graphics.
 
 use crate::commands::{
-    AddFontCommand, AddGraphicCommand, ClearFontsCommand, ClearGraphicsCommand, EditorCommand,
-    ListFontsCommand, ListGraphicsCommand, RemoveFontCommand, RemoveGraphicCommand,
+    AddFontCommand, AddGraphicCommand, ClearFontsCommand, ClearGraphicsCommand, ListFontsCommand,
+    ListGraphicsCommand, RemoveFontCommand, RemoveGraphicCommand,
 };
 use crate::core::{EditorDocument, Result};
 
@@ -26,21 +26,21 @@ impl<'a> FontsOps<'a> {
     /// Add a font from UU-encoded data
     pub fn add(self, filename: &str, data_lines: Vec<String>) -> Result<&'a mut EditorDocument> {
         let command = AddFontCommand::new(filename.to_string(), data_lines);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Add a font from binary data (will UU-encode it)
     pub fn add_binary(self, filename: &str, data: &[u8]) -> Result<&'a mut EditorDocument> {
         let command = AddFontCommand::from_binary(filename.to_string(), data);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Remove a font by filename
     pub fn remove(self, filename: &str) -> Result<&'a mut EditorDocument> {
         let command = RemoveFontCommand::new(filename.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -58,7 +58,7 @@ impl<'a> FontsOps<'a> {
     /// Clear all fonts
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = ClearFontsCommand::new();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -82,21 +82,21 @@ impl<'a> GraphicsOps<'a> {
     /// Add a graphic from UU-encoded data
     pub fn add(self, filename: &str, data_lines: Vec<String>) -> Result<&'a mut EditorDocument> {
         let command = AddGraphicCommand::new(filename.to_string(), data_lines);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Add a graphic from binary data (will UU-encode it)
     pub fn add_binary(self, filename: &str, data: &[u8]) -> Result<&'a mut EditorDocument> {
         let command = AddGraphicCommand::from_binary(filename.to_string(), data);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Remove a graphic by filename
     pub fn remove(self, filename: &str) -> Result<&'a mut EditorDocument> {
         let command = RemoveGraphicCommand::new(filename.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -114,7 +114,7 @@ impl<'a> GraphicsOps<'a> {
     /// Clear all graphics
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = ClearGraphicsCommand::new();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/script_info.rs b/crates/ass-editor/core/fluent/script_info.rs
index f2688e8..fa93320 100644
--- a/crates/ass-editor/core/fluent/script_info.rs
+++ b/crates/ass-editor/core/fluent/script_info.rs
@@ -1,8 +1,7 @@
 //! Fluent API for managing Script Info properties.
 
 use crate::commands::{
-    DeleteScriptInfoCommand, EditorCommand, GetAllScriptInfoCommand, GetScriptInfoCommand,
-    SetScriptInfoCommand,
+    DeleteScriptInfoCommand, GetAllScriptInfoCommand, GetScriptInfoCommand, SetScriptInfoCommand,
 };
 use crate::core::errors::EditorError;
 use crate::core::{EditorDocument, Result};
@@ -27,7 +26,7 @@ impl<'a> ScriptInfoOps<'a> {
     /// Set a script info property
     pub fn set(self, property: &str, value: &str) -> Result<&'a mut EditorDocument> {
         let command = SetScriptInfoCommand::new(property.to_string(), value.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -40,7 +39,7 @@ impl<'a> ScriptInfoOps<'a> {
     /// Delete a script info property
     pub fn delete(self, property: &str) -> Result<&'a mut EditorDocument> {
         let command = DeleteScriptInfoCommand::new(property.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -74,8 +73,8 @@ impl<'a> ScriptInfoOps<'a> {
     pub fn resolution(self, width: u32, height: u32) -> Result<&'a mut EditorDocument> {
         let command1 = SetScriptInfoCommand::new("PlayResX".to_string(), width.to_string());
         let command2 = SetScriptInfoCommand::new("PlayResY".to_string(), height.to_string());
-        command1.execute(self.document)?;
-        command2.execute(self.document)?;
+        self.document.execute_command(&command1)?;
+        self.document.execute_command(&command2)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/style.rs b/crates/ass-editor/core/fluent/style.rs
index d75582b..626c78c 100644
--- a/crates/ass-editor/core/fluent/style.rs
+++ b/crates/ass-editor/core/fluent/style.rs
@@ -2,7 +2,6 @@
 
 use crate::commands::{
     ApplyStyleCommand, CloneStyleCommand, CreateStyleCommand, DeleteStyleCommand, EditStyleCommand,
-    EditorCommand,
 };
 use crate::core::{EditorDocument, Result, StyleBuilder};
 
@@ -23,7 +22,7 @@ impl<'a> StyleOps<'a> {
     /// Create a new style
     pub fn create(self, name: &str, builder: StyleBuilder) -> Result<&'a mut EditorDocument> {
         let command = CreateStyleCommand::new(name.to_string(), builder);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -35,14 +34,14 @@ impl<'a> StyleOps<'a> {
     /// Delete a style
     pub fn delete(self, name: &str) -> Result<&'a mut EditorDocument> {
         let command = DeleteStyleCommand::new(name.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Clone a style
     pub fn clone(self, source: &str, target: &str) -> Result<&'a mut EditorDocument> {
         let command = CloneStyleCommand::new(source.to_string(), target.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -109,7 +108,7 @@ impl<'a> StyleEditor<'a> {
 
     /// Apply the changes
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
-        self.command.execute(self.document)?;
+        self.document.execute_command(&self.command)?;
         Ok(self.document)
     }
 }
@@ -139,7 +138,7 @@ impl<'a> StyleApplicator<'a> {
 
     /// Apply the style changes
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
-        self.command.execute(self.document)?;
+        self.document.execute_command(&self.command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/tag.rs b/crates/ass-editor/core/fluent/tag.rs
index c256a58..40f9a95 100644
--- a/crates/ass-editor/core/fluent/tag.rs
+++ b/crates/ass-editor/core/fluent/tag.rs
@@ -1,8 +1,8 @@
 //! Fluent API for ASS tag operations.
 
 use crate::commands::{
-    EditorCommand, InsertTagCommand, ParseTagCommand, ParsedTag, RemoveTagCommand,
-    ReplaceTagCommand, WrapTagCommand,
+    InsertTagCommand, ParseTagCommand, ParsedTag, RemoveTagCommand, ReplaceTagCommand,
+    WrapTagCommand,
 };
 use crate::core::errors::EditorError;
 use crate::core::{EditorDocument, Position, Range, Result};
@@ -48,7 +48,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Position required for tag insertion"))?;
 
         let command = InsertTagCommand::new(position, tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -59,7 +59,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Position required for tag insertion"))?;
 
         let command = InsertTagCommand::new(position, tag.to_string()).no_auto_wrap();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -70,7 +70,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag removal"))?;
 
         let command = RemoveTagCommand::new(range);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -81,7 +81,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag removal"))?;
 
         let command = RemoveTagCommand::new(range).pattern(pattern.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -93,7 +93,7 @@ impl<'a> TagOps<'a> {
 
         let command =
             ReplaceTagCommand::new(range, find_pattern.to_string(), replace_with.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -109,7 +109,7 @@ impl<'a> TagOps<'a> {
 
         let command =
             ReplaceTagCommand::new(range, find_pattern.to_string(), replace_with.to_string()).all();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -120,7 +120,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag wrapping"))?;
 
         let command = WrapTagCommand::new(range, opening_tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -132,7 +132,7 @@ impl<'a> TagOps<'a> {
 
         let command = WrapTagCommand::new(range, opening_tag.to_string())
             .closing_tag(closing_tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
-- 
2.43.0


From c8ceb608f3ebc3a32d19f61ccb9d074996c8a6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:14 +0000
Subject: [PATCH 27/76] fix: announce undo and redo to document listeners

---
 crates/ass-editor/core/document/undo_redo.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index d033930..c8c35d1 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -9,6 +9,8 @@ use crate::commands::CommandResult;
 use crate::core::errors::{EditorError, Result};
 use crate::core::history::UndoManager;
 use crate::core::position::{Position, Range};
+#[cfg(feature = "std")]
+use crate::events::DocumentEvent;
 
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
@@ -79,6 +81,12 @@ impl EditorDocument {
                 }
             }
 
+            #[cfg(feature = "std")]
+            self.emit(DocumentEvent::UndoPerformed {
+                action_description: entry.description.clone(),
+                changes_count: 1,
+            });
+
             // Push to redo stack for future redo
             self.history.push_redo_entry(entry);
 
@@ -148,6 +156,12 @@ impl EditorDocument {
                 self.history.set_cursor(Some(cursor));
             }
 
+            #[cfg(feature = "std")]
+            self.emit(DocumentEvent::RedoPerformed {
+                action_description: entry.description.clone(),
+                changes_count: 1,
+            });
+
             // Create a new history entry for the redo operation
             let new_entry = crate::core::history::HistoryEntry::new(
                 entry.operation,
-- 
2.43.0


From b288c0451a006bf3a8f84c6083ff63681a8743de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:52 +0000
Subject: [PATCH 28/76] fix: an undo or redo that fails keeps the text and the
 history entry

---
 crates/ass-editor/core/document/undo_redo.rs | 222 +++++++++++--------
 1 file changed, 129 insertions(+), 93 deletions(-)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index c8c35d1..2572dde 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -7,7 +7,7 @@
 use super::EditorDocument;
 use crate::commands::CommandResult;
 use crate::core::errors::{EditorError, Result};
-use crate::core::history::UndoManager;
+use crate::core::history::{HistoryEntry, UndoManager};
 use crate::core::position::{Position, Range};
 #[cfg(feature = "std")]
 use crate::events::DocumentEvent;
@@ -21,65 +21,20 @@ impl EditorDocument {
     /// Retrieves the most recent operation from the undo stack and reverses it.
     /// If the operation includes a script delta, it will be applied for efficient updates.
     pub fn undo(&mut self) -> Result<CommandResult> {
-        use crate::core::history::Operation;
+        let before = self.text();
+        let modified = self.modified;
 
         // Pop from undo stack
         if let Some(entry) = self.history.pop_undo_entry() {
-            let mut result = CommandResult::success();
-            result.content_changed = true;
-
-            // Execute the inverse of the operation
-            match &entry.operation {
-                Operation::Insert { position, text } => {
-                    // Undo insert by deleting the inserted text
-                    let end_pos = Position::new(position.offset + text.len());
-                    let range = Range::new(*position, end_pos);
-                    self.delete_raw(range)?;
-                    result.modified_range = Some(Range::new(*position, *position));
-                    result.new_cursor = entry.cursor_before;
-                }
-                Operation::Delete {
-                    range,
-                    deleted_text,
-                } => {
-                    // Undo delete by inserting the deleted text
-                    self.insert_raw(range.start, deleted_text)?;
-                    let end_pos = Position::new(range.start.offset + deleted_text.len());
-                    result.modified_range = Some(Range::new(range.start, end_pos));
-                    result.new_cursor = entry.cursor_before;
-                }
-                Operation::Replace {
-                    range,
-                    old_text,
-                    new_text,
-                } => {
-                    // Undo replace by restoring old text in place of the new one
-                    let new_end = Position::new(range.start.offset + new_text.len());
-                    self.replace_raw(Range::new(range.start, new_end), old_text)?;
-                    let end_pos = Position::new(range.start.offset + old_text.len());
-                    result.modified_range = Some(Range::new(range.start, end_pos));
-                    result.new_cursor = entry.cursor_before;
+            let mut result = match self.reverse_entry(&entry) {
+                Ok(result) => result,
+                Err(e) => {
+                    // All of the operation or nothing
+                    self.restore_text(&before, modified)?;
+                    self.history.stack_mut().push_redone(entry);
+                    return Err(e);
                 }
-                #[cfg(feature = "stream")]
-                Operation::Delta { forward, undo_data } => {
-                    // Restore removed sections
-                    for (index, section_text) in undo_data.removed_sections.iter() {
-                        self.insert_section_at(*index, section_text)?;
-                    }
-
-                    // Restore modified sections
-                    for (index, original_text) in undo_data.modified_sections.iter() {
-                        self.replace_section(*index, original_text)?;
-                    }
-
-                    // Remove added sections
-                    for _ in 0..forward.added.len() {
-                        self.remove_last_section()?;
-                    }
-
-                    result.message = Some("Delta operation undone".to_string());
-                }
-            }
+            };
 
             #[cfg(feature = "std")]
             self.emit(DocumentEvent::UndoPerformed {
@@ -103,52 +58,88 @@ impl EditorDocument {
         }
     }
 
+    /// Execute the inverse of the operation of an entry
+    fn reverse_entry(&mut self, entry: &HistoryEntry) -> Result<CommandResult> {
+        use crate::core::history::Operation;
+
+        let mut result = CommandResult::success();
+        result.content_changed = true;
+
+        // Execute the inverse of the operation
+        match &entry.operation {
+            Operation::Insert { position, text } => {
+                // Undo insert by deleting the inserted text
+                let end_pos = Position::new(position.offset + text.len());
+                let range = Range::new(*position, end_pos);
+                self.delete_raw(range)?;
+                result.modified_range = Some(Range::new(*position, *position));
+                result.new_cursor = entry.cursor_before;
+            }
+            Operation::Delete {
+                range,
+                deleted_text,
+            } => {
+                // Undo delete by inserting the deleted text
+                self.insert_raw(range.start, deleted_text)?;
+                let end_pos = Position::new(range.start.offset + deleted_text.len());
+                result.modified_range = Some(Range::new(range.start, end_pos));
+                result.new_cursor = entry.cursor_before;
+            }
+            Operation::Replace {
+                range,
+                old_text,
+                new_text,
+            } => {
+                // Undo replace by restoring old text in place of the new one
+                let new_end = Position::new(range.start.offset + new_text.len());
+                self.replace_raw(Range::new(range.start, new_end), old_text)?;
+                let end_pos = Position::new(range.start.offset + old_text.len());
+                result.modified_range = Some(Range::new(range.start, end_pos));
+                result.new_cursor = entry.cursor_before;
+            }
+            #[cfg(feature = "stream")]
+            Operation::Delta { forward, undo_data } => {
+                // Restore removed sections
+                for (index, section_text) in undo_data.removed_sections.iter() {
+                    self.insert_section_at(*index, section_text)?;
+                }
+
+                // Restore modified sections
+                for (index, original_text) in undo_data.modified_sections.iter() {
+                    self.replace_section(*index, original_text)?;
+                }
+
+                // Remove added sections
+                for _ in 0..forward.added.len() {
+                    self.remove_last_section()?;
+                }
+
+                result.message = Some("Delta operation undone".to_string());
+            }
+        }
+
+        Ok(result)
+    }
+
     /// Perform a redo operation
     ///
     /// Retrieves the most recent operation from the redo stack and re-executes it.
     /// If the operation includes a script delta, it will be applied for efficient updates.
     pub fn redo(&mut self) -> Result<CommandResult> {
-        use crate::core::history::Operation;
+        let before = self.text();
+        let modified = self.modified;
 
         // Pop from redo stack
         if let Some(entry) = self.history.pop_redo_entry() {
-            let mut result = CommandResult::success();
-            result.content_changed = true;
-
-            // Re-execute the original operation
-            match &entry.operation {
-                Operation::Insert { position, text } => {
-                    // Redo insert
-                    self.insert_raw(*position, text)?;
-                    let end_pos = Position::new(position.offset + text.len());
-                    result.modified_range = Some(Range::new(*position, end_pos));
-                    result.new_cursor = entry.cursor_after;
-                }
-                Operation::Delete { range, .. } => {
-                    // Redo delete
-                    self.delete_raw(*range)?;
-                    result.modified_range = Some(Range::new(range.start, range.start));
-                    result.new_cursor = entry.cursor_after;
+            let mut result = match self.reapply_entry(&entry) {
+                Ok(result) => result,
+                Err(e) => {
+                    // All of the operation or nothing
+                    self.restore_text(&before, modified)?;
+                    self.history.push_redo_entry(entry);
+                    return Err(e);
                 }
-                Operation::Replace {
-                    range, new_text, ..
-                } => {
-                    // Redo replace
-                    self.replace_raw(*range, new_text)?;
-                    let end_pos = Position::new(range.start.offset + new_text.len());
-                    result.modified_range = Some(Range::new(range.start, end_pos));
-                    result.new_cursor = entry.cursor_after;
-                }
-                #[cfg(feature = "stream")]
-                Operation::Delta {
-                    forward,
-                    undo_data: _,
-                } => {
-                    // Re-apply the delta
-                    self.apply_script_delta_internal(forward.clone())?;
-                    result.message = Some("Delta re-applied".to_string());
-                }
-            }
+            };
 
             // Record in history without using the public methods (to avoid recursion)
             // We need to manually update the history manager's cursor
@@ -180,6 +171,51 @@ impl EditorDocument {
         }
     }
 
+    /// Re-execute the operation of an entry
+    fn reapply_entry(&mut self, entry: &HistoryEntry) -> Result<CommandResult> {
+        use crate::core::history::Operation;
+
+        let mut result = CommandResult::success();
+        result.content_changed = true;
+
+        // Re-execute the original operation
+        match &entry.operation {
+            Operation::Insert { position, text } => {
+                // Redo insert
+                self.insert_raw(*position, text)?;
+                let end_pos = Position::new(position.offset + text.len());
+                result.modified_range = Some(Range::new(*position, end_pos));
+                result.new_cursor = entry.cursor_after;
+            }
+            Operation::Delete { range, .. } => {
+                // Redo delete
+                self.delete_raw(*range)?;
+                result.modified_range = Some(Range::new(range.start, range.start));
+                result.new_cursor = entry.cursor_after;
+            }
+            Operation::Replace {
+                range, new_text, ..
+            } => {
+                // Redo replace
+                self.replace_raw(*range, new_text)?;
+                let end_pos = Position::new(range.start.offset + new_text.len());
+                result.modified_range = Some(Range::new(range.start, end_pos));
+                result.new_cursor = entry.cursor_after;
+            }
+            #[cfg(feature = "stream")]
+            Operation::Delta {
+                forward,
+                undo_data: _,
+            } => {
+                // Re-apply the delta
+                self.apply_script_delta_internal(forward.clone())?;
+                result.message = Some("Delta re-applied".to_string());
+            }
+        }
+
+        Ok(result)
+    }
+
     /// Check if undo is available
     pub fn can_undo(&self) -> bool {
         self.history.can_undo()
-- 
2.43.0


From 6628e448b30c627be1dc2f1eb5f170b3e58de344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 29/76] fix: indent, replace-all and delta batches are one
 operation, all of it or nothing

---
 .../commands/delta_commands/batch.rs          | 20 ++++++-
 .../ass-editor/core/document/editing_raw.rs   | 55 ++++++++++++++++++-
 crates/ass-editor/core/document/validation.rs | 22 +-------
 crates/ass-editor/core/fluent/selection.rs    | 17 +++++-
 .../ass-editor/utils/indexing/fst_search.rs   |  9 ++-
 crates/ass-editor/utils/search/trait_impl.rs  | 12 +++-
 6 files changed, 106 insertions(+), 29 deletions(-)

diff --git a/crates/ass-editor/commands/delta_commands/batch.rs b/crates/ass-editor/commands/delta_commands/batch.rs
index f662500..a6863e7 100644
--- a/crates/ass-editor/commands/delta_commands/batch.rs
+++ b/crates/ass-editor/commands/delta_commands/batch.rs
@@ -4,7 +4,7 @@ use super::DeltaCommand;
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{boxed::Box, vec::Vec};
+use alloc::{boxed::Box, string::ToString, vec::Vec};
 
 /// Batch command that executes multiple delta commands efficiently
 pub struct DeltaBatchCommand {
@@ -32,11 +32,25 @@ impl DeltaBatchCommand {
     ) -> Result<Vec<super::CommandResult>> {
         let mut results = Vec::new();
 
+        let change = document.begin_change();
+
         for command in &self.commands {
-            let result = command.execute_with_delta(document)?;
-            results.push(result);
+            match command.execute_with_delta(document) {
+                Ok(result) => results.push(result),
+                Err(e) => {
+                    // All of the batch or nothing
+                    document.revert_change(change)?;
+                    return Err(e);
+                }
+            }
         }
 
+        document.keep_change(
+            change,
+            "Delta batch".to_string(),
+            &super::CommandResult::success(),
+        );
+
         Ok(results)
     }
 }
diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index ea40bae..45b0f01 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -4,9 +4,11 @@
 //! are the building blocks used by the higher-level editing and history APIs.
 
 use super::EditorDocument;
+#[cfg(feature = "std")]
+use super::EventSender;
 use crate::commands::CommandResult;
 use crate::core::errors::{EditorError, Result};
-use crate::core::history::Operation;
+use crate::core::history::{Operation, UndoManager};
 use crate::core::position::{Position, Range};
 
 #[cfg(feature = "std")]
@@ -18,6 +20,15 @@ use alloc::{
     string::{String, ToString},
 };
 
+/// What a document was when a change made of several edits began
+pub(crate) struct PendingChange {
+    text: String,
+    modified: bool,
+    history: UndoManager,
+    #[cfg(feature = "std")]
+    event_tx: Option<EventSender>,
+}
+
 impl EditorDocument {
     /// Insert text at position (low-level operation without undo)
     pub(crate) fn insert_raw(&mut self, pos: Position, text: &str) -> Result<()> {
@@ -102,6 +113,48 @@ impl EditorDocument {
         }
     }
 
+    /// Start a change made of several edits
+    ///
+    /// Until it is kept or reverted, the edits stay out of the history and the
+    /// event stream: together they are one operation.
+    pub(crate) fn begin_change(&mut self) -> PendingChange {
+        let cursor = self.cursor_position();
+        let change = PendingChange {
+            text: self.text(),
+            modified: self.modified,
+            history: core::mem::take(&mut self.history),
+            #[cfg(feature = "std")]
+            event_tx: self.event_tx.take(),
+        };
+        self.set_cursor_position(cursor);
+        change
+    }
+
+    /// Keep what was edited since the change began, as one operation
+    pub(crate) fn keep_change(
+        &mut self,
+        change: PendingChange,
+        description: String,
+        result: &CommandResult,
+    ) {
+        self.history = change.history;
+        #[cfg(feature = "std")]
+        {
+            self.event_tx = change.event_tx;
+        }
+        self.record_change_since(&change.text, description, result);
+    }
+
+    /// Take back what was edited since the change began
+    pub(crate) fn revert_change(&mut self, change: PendingChange) -> Result<()> {
+        self.history = change.history;
+        #[cfg(feature = "std")]
+        {
+            self.event_tx = change.event_tx;
+        }
+        self.restore_text(&change.text, change.modified)
+    }
+
     /// Put back the text a failed multi-step operation started from
     pub(super) fn restore_text(&mut self, text: &str, modified: bool) -> Result<()> {
         if self.text() != text {
diff --git a/crates/ass-editor/core/document/validation.rs b/crates/ass-editor/core/document/validation.rs
index cec0cef..6a6b7e7 100644
--- a/crates/ass-editor/core/document/validation.rs
+++ b/crates/ass-editor/core/document/validation.rs
@@ -45,35 +45,19 @@ impl EditorDocument {
         &mut self,
         command: &dyn crate::commands::EditorCommand,
     ) -> Result<crate::commands::CommandResult> {
-        let before = self.text();
-        let modified = self.modified;
-
-        // Edits the command makes through the recording methods are part of
-        // this one operation: keep them out of the history and event stream
-        let cursor = self.cursor_position();
-        let history = core::mem::take(&mut self.history);
-        self.set_cursor_position(cursor);
-        #[cfg(feature = "std")]
-        let event_tx = self.event_tx.take();
-
+        let change = self.begin_change();
         let outcome = command.execute(self);
 
-        self.history = history;
-        #[cfg(feature = "std")]
-        {
-            self.event_tx = event_tx;
-        }
-
         let result = match outcome {
             Ok(result) if result.success => result,
             failed => {
                 // All of the command or nothing
-                self.restore_text(&before, modified)?;
+                self.revert_change(change)?;
                 return failed;
             }
         };
 
-        self.record_change_since(&before, command.description().to_string(), &result);
+        self.keep_change(change, command.description().to_string(), &result);
 
         Ok(result)
     }
diff --git a/crates/ass-editor/core/fluent/selection.rs b/crates/ass-editor/core/fluent/selection.rs
index 45b82bd..b76e452 100644
--- a/crates/ass-editor/core/fluent/selection.rs
+++ b/crates/ass-editor/core/fluent/selection.rs
@@ -1,5 +1,6 @@
 //! Fluent API builder for operations on a selected range.
 
+use crate::commands::CommandResult;
 use crate::core::{EditorDocument, Range, Result};
 
 #[cfg(feature = "rope")]
@@ -68,11 +69,17 @@ impl<'a> SelectRange<'a> {
         }
 
         // Apply indentation
+        let change = self.document.begin_change();
         for line_start in line_positions {
             let pos = Position::new(line_start);
             let range = Range::empty(pos);
-            self.document.replace(range, &indent)?;
+            if let Err(e) = self.document.replace(range, &indent) {
+                self.document.revert_change(change)?;
+                return Err(e);
+            }
         }
+        self.document
+            .keep_change(change, "Indent".to_string(), &CommandResult::success());
 
         Ok(self.document)
     }
@@ -106,13 +113,19 @@ impl<'a> SelectRange<'a> {
         }
 
         // Apply unindent operations
+        let change = self.document.begin_change();
         for (line_start, space_count) in unindent_ops {
             let range = Range::new(
                 Position::new(line_start),
                 Position::new(line_start + space_count),
             );
-            self.document.delete(range)?;
+            if let Err(e) = self.document.delete(range) {
+                self.document.revert_change(change)?;
+                return Err(e);
+            }
         }
+        self.document
+            .keep_change(change, "Unindent".to_string(), &CommandResult::success());
 
         Ok(self.document)
     }
diff --git a/crates/ass-editor/utils/indexing/fst_search.rs b/crates/ass-editor/utils/indexing/fst_search.rs
index 86cebfa..99c9951 100644
--- a/crates/ass-editor/utils/indexing/fst_search.rs
+++ b/crates/ass-editor/utils/indexing/fst_search.rs
@@ -2,6 +2,7 @@
 
 use super::common::calculate_hash;
 use super::fst::FstSearchIndex;
+use crate::commands::CommandResult;
 use crate::core::{EditorDocument, Position, Range, Result};
 use crate::utils::search::{DocumentSearch, SearchOptions, SearchResult, SearchStats};
 
@@ -104,10 +105,16 @@ impl DocumentSearch for FstSearchIndex {
         let mut sorted_results = results.clone();
         sorted_results.sort_by_key(|r| core::cmp::Reverse(r.start.offset));
 
+        let change = document.begin_change();
         for result in &sorted_results {
             let range = Range::new(result.start, result.end);
-            document.replace(range, replacement)?;
+            if let Err(e) = document.replace(range, replacement) {
+                // Every match or none
+                document.revert_change(change)?;
+                return Err(e);
+            }
         }
+        document.keep_change(change, "Replace all".to_string(), &CommandResult::success());
 
         Ok(results)
     }
diff --git a/crates/ass-editor/utils/search/trait_impl.rs b/crates/ass-editor/utils/search/trait_impl.rs
index baa647f..2d1bf9b 100644
--- a/crates/ass-editor/utils/search/trait_impl.rs
+++ b/crates/ass-editor/utils/search/trait_impl.rs
@@ -6,6 +6,7 @@
 use super::engine::DocumentSearchImpl;
 use super::options::{SearchOptions, SearchResult, SearchStats};
 use super::traits::DocumentSearch;
+use crate::commands::CommandResult;
 use crate::core::{EditorDocument, Range, Result};
 
 #[cfg(feature = "std")]
@@ -16,7 +17,7 @@ use std::time::Instant;
 type Instant = u64;
 
 #[cfg(not(feature = "std"))]
-use alloc::vec::Vec;
+use alloc::{string::ToString, vec::Vec};
 
 impl DocumentSearch for DocumentSearchImpl {
     fn build_index(&mut self, document: &EditorDocument) -> Result<()> {
@@ -80,12 +81,17 @@ impl DocumentSearch for DocumentSearchImpl {
         let mut replaced = Vec::new();
 
         // Apply replacements in reverse order to maintain position validity
+        let change = document.begin_change();
         for result in results.iter().rev() {
             let range = Range::new(result.start, result.end);
-            document.delete(range)?;
-            document.insert(result.start, replacement)?;
+            if let Err(e) = document.replace(range, replacement) {
+                // Every match or none
+                document.revert_change(change)?;
+                return Err(e);
+            }
             replaced.push(result.clone());
         }
+        document.keep_change(change, "Replace all".to_string(), &CommandResult::success());
 
         replaced.reverse(); // Restore original order
         Ok(replaced)
-- 
2.43.0


From 46f404444ce1bd7d1f3a38212b934c8c8322d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 30/76] fix: replace-all with the linear index hit text shifted
 by earlier replacements

---
 crates/ass-editor/utils/indexing/linear.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/utils/indexing/linear.rs b/crates/ass-editor/utils/indexing/linear.rs
index d6fca10..fd9a794 100644
--- a/crates/ass-editor/utils/indexing/linear.rs
+++ b/crates/ass-editor/utils/indexing/linear.rs
@@ -1,6 +1,7 @@
 //! Linear search index fallback used when the FST backend is unavailable.
 
 use super::common::{calculate_hash, IndexEntry};
+use crate::commands::CommandResult;
 use crate::core::{EditorDocument, Position, Range, Result};
 use crate::utils::search::{DocumentSearch, SearchOptions, SearchResult, SearchStats};
 
@@ -132,10 +133,20 @@ impl DocumentSearch for LinearSearchIndex {
     ) -> Result<Vec<SearchResult<'a>>> {
         let results = self.search(pattern, options)?;
 
-        for result in &results {
+        // Apply replacements in reverse order to maintain position validity
+        let mut sorted_results = results.clone();
+        sorted_results.sort_by_key(|r| core::cmp::Reverse(r.start.offset));
+
+        let change = document.begin_change();
+        for result in &sorted_results {
             let range = Range::new(result.start, result.end);
-            document.replace(range, replacement)?;
+            if let Err(e) = document.replace(range, replacement) {
+                // Every match or none
+                document.revert_change(change)?;
+                return Err(e);
+            }
         }
+        document.keep_change(change, "Replace all".to_string(), &CommandResult::success());
 
         Ok(results)
     }
-- 
2.43.0


From 2710393b04569372089100ba64364503da2d4a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 31/76] fix: undo no longer replays a delta, which recorded new
 history

---
 crates/ass-editor/core/document/undo_redo.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index 2572dde..c724f43 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -45,12 +45,6 @@ impl EditorDocument {
             // Push to redo stack for future redo
             self.history.push_redo_entry(entry);
 
-            // Apply script delta if available
-            #[cfg(feature = "stream")]
-            if let Some(delta) = result.script_delta.as_ref() {
-                self.apply_script_delta(delta.clone())?;
-            }
-
             result.message = Some("Undo successful".to_string());
             Ok(result)
         } else {
-- 
2.43.0


From 5aed6f00a78606966eb8cdbbe4a29c1dafd95955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 32/76] fix: positions outside the document are refused,
 searches keep to character boundaries

---
 .../ass-editor/core/document/editing_raw.rs   |  16 +-
 .../ass-editor/core/document/text_access.rs   |   4 +-
 crates/ass-editor/core/fluent/position.rs     |   2 +
 crates/ass-editor/core/fluent/selection.rs    |  21 +--
 crates/ass-editor/core/position/range.rs      |  15 ++
 .../builtin/auto_complete/context.rs          |   8 +-
 crates/ass-editor/utils/search/basic.rs       |  53 ++++--
 crates/ass-editor/utils/search/incremental.rs | 178 +-----------------
 .../ass-editor/utils/search/regex_search.rs   |   2 +-
 9 files changed, 98 insertions(+), 201 deletions(-)

diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 45b0f01..67202ac 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -58,7 +58,7 @@ impl EditorDocument {
 
     /// Delete text in range (low-level operation without undo)
     pub(crate) fn delete_raw(&mut self, range: Range) -> Result<()> {
-        if range.end.offset > self.len_bytes() {
+        if range.start.offset > range.end.offset || range.end.offset > self.len_bytes() {
             return Err(EditorError::InvalidRange {
                 start: range.start.offset,
                 end: range.end.offset,
@@ -93,9 +93,21 @@ impl EditorDocument {
         Ok(())
     }
 
+    /// Refuse a position past the end of the document
+    #[cfg(feature = "rope")]
+    pub(crate) fn require_in_bounds(&self, pos: Position) -> Result<()> {
+        if pos.offset > self.len_bytes() {
+            return Err(EditorError::PositionOutOfBounds {
+                position: pos.offset,
+                length: self.len_bytes(),
+            });
+        }
+        Ok(())
+    }
+
     /// Refuse an offset inside a character: the rope would round it down, and the
     /// recorded position would no longer say where the edit happened.
-    fn require_char_boundary(&self, offset: usize) -> Result<()> {
+    pub(super) fn require_char_boundary(&self, offset: usize) -> Result<()> {
         #[cfg(feature = "rope")]
         let boundary = self
             .text_rope
diff --git a/crates/ass-editor/core/document/text_access.rs b/crates/ass-editor/core/document/text_access.rs
index 0ef773b..cad7be2 100644
--- a/crates/ass-editor/core/document/text_access.rs
+++ b/crates/ass-editor/core/document/text_access.rs
@@ -81,7 +81,7 @@ impl EditorDocument {
         let start = range.start.offset;
         let end = range.end.offset;
 
-        if end > self.len_bytes() {
+        if start > end || end > self.len_bytes() {
             return Err(EditorError::InvalidRange {
                 start,
                 end,
@@ -98,6 +98,8 @@ impl EditorDocument {
         }
         #[cfg(not(feature = "rope"))]
         {
+            self.require_char_boundary(start)?;
+            self.require_char_boundary(end)?;
             Ok(self.text_content[start..end].to_string())
         }
     }
diff --git a/crates/ass-editor/core/fluent/position.rs b/crates/ass-editor/core/fluent/position.rs
index 99749fd..e47d965 100644
--- a/crates/ass-editor/core/fluent/position.rs
+++ b/crates/ass-editor/core/fluent/position.rs
@@ -52,6 +52,7 @@ impl<'a> AtPosition<'a> {
     pub fn replace_to_line_end(self, text: &str) -> Result<&'a mut EditorDocument> {
         #[cfg(feature = "rope")]
         {
+            self.document.require_in_bounds(self.position)?;
             let rope = self.document.rope();
             let line_idx = rope.byte_to_line(self.position.offset);
             let line_end_byte = if line_idx + 1 < rope.len_lines() {
@@ -81,6 +82,7 @@ impl<'a> AtPosition<'a> {
     /// Convert position to line/column
     #[cfg(feature = "rope")]
     pub fn to_line_column(&self) -> Result<(usize, usize)> {
+        self.document.require_in_bounds(self.position)?;
         let rope = self.document.rope();
         let line_idx = rope.byte_to_line(self.position.offset);
         let line_start = rope.line_to_byte(line_idx);
diff --git a/crates/ass-editor/core/fluent/selection.rs b/crates/ass-editor/core/fluent/selection.rs
index b76e452..a042d9f 100644
--- a/crates/ass-editor/core/fluent/selection.rs
+++ b/crates/ass-editor/core/fluent/selection.rs
@@ -39,14 +39,10 @@ impl<'a> SelectRange<'a> {
     /// Wrap the selection with ASS tags
     pub fn wrap_with_tag(self, open_tag: &str, close_tag: &str) -> Result<&'a mut EditorDocument> {
         // Get the selected text
-        let selected = self
-            .document
-            .rope()
-            .byte_slice(self.range.start.offset..self.range.end.offset);
-        let mut wrapped =
-            String::with_capacity(open_tag.len() + selected.len_bytes() + close_tag.len());
+        let selected = self.document.text_range(self.range)?;
+        let mut wrapped = String::with_capacity(open_tag.len() + selected.len() + close_tag.len());
         wrapped.push_str(open_tag);
-        wrapped.push_str(&selected.to_string());
+        wrapped.push_str(&selected);
         wrapped.push_str(close_tag);
 
         self.document.replace(self.range, &wrapped)?;
@@ -57,6 +53,8 @@ impl<'a> SelectRange<'a> {
     #[cfg(feature = "rope")]
     pub fn indent(self, spaces: usize) -> Result<&'a mut EditorDocument> {
         // Get line information before mutating
+        self.document.require_in_bounds(self.range.start)?;
+        self.document.require_in_bounds(self.range.end)?;
         let start_line = self.document.rope().byte_to_line(self.range.start.offset);
         let end_line = self.document.rope().byte_to_line(self.range.end.offset);
         let indent = " ".repeat(spaces);
@@ -88,6 +86,8 @@ impl<'a> SelectRange<'a> {
     #[cfg(feature = "rope")]
     pub fn unindent(self, spaces: usize) -> Result<&'a mut EditorDocument> {
         // Get line information before mutating
+        self.document.require_in_bounds(self.range.start)?;
+        self.document.require_in_bounds(self.range.end)?;
         let start_line = self.document.rope().byte_to_line(self.range.start.offset);
         let end_line = self.document.rope().byte_to_line(self.range.end.offset);
 
@@ -130,12 +130,9 @@ impl<'a> SelectRange<'a> {
         Ok(self.document)
     }
 
-    /// Get the selected text
+    /// Get the selected text (empty if the selection is not inside the document)
     pub fn text(&self) -> String {
-        self.document
-            .rope()
-            .byte_slice(self.range.start.offset..self.range.end.offset)
-            .to_string()
+        self.document.text_range(self.range).unwrap_or_default()
     }
 
     /// Get the range
diff --git a/crates/ass-editor/core/position/range.rs b/crates/ass-editor/core/position/range.rs
index ea445d1..3ebaa03 100644
--- a/crates/ass-editor/core/position/range.rs
+++ b/crates/ass-editor/core/position/range.rs
@@ -79,6 +79,21 @@ impl Range {
         self.end.offset.saturating_sub(self.start.offset)
     }
 
+    /// The offsets of this range in `text`, moved back to the last character
+    /// boundary of `text` they do not lie before; never reversed
+    #[must_use]
+    pub(crate) fn clamped_to(&self, text: &str) -> (usize, usize) {
+        let floor = |offset: usize| {
+            let mut at = min(offset, text.len());
+            while !text.is_char_boundary(at) {
+                at -= 1;
+            }
+            at
+        };
+        let end = floor(self.end.offset);
+        (min(floor(self.start.offset), end), end)
+    }
+
     /// Check if range contains a position
     #[must_use]
     pub const fn contains(&self, pos: Position) -> bool {
diff --git a/crates/ass-editor/extensions/builtin/auto_complete/context.rs b/crates/ass-editor/extensions/builtin/auto_complete/context.rs
index f5e67bb..9eb9fd9 100644
--- a/crates/ass-editor/extensions/builtin/auto_complete/context.rs
+++ b/crates/ass-editor/extensions/builtin/auto_complete/context.rs
@@ -5,7 +5,7 @@
 
 use super::extension::AutoCompleteExtension;
 use super::types::CompletionContext;
-use crate::core::{EditorDocument, Position, Result};
+use crate::core::{EditorDocument, EditorError, Position, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
@@ -19,6 +19,12 @@ impl AutoCompleteExtension {
     ) -> Result<CompletionContext> {
         let content = document.text();
         let offset = position.offset;
+        if !content.is_char_boundary(offset) {
+            return Err(EditorError::PositionOutOfBounds {
+                position: offset,
+                length: content.len(),
+            });
+        }
 
         // Find current line
         let line_start = content[..offset].rfind('\n').map(|p| p + 1).unwrap_or(0);
diff --git a/crates/ass-editor/utils/search/basic.rs b/crates/ass-editor/utils/search/basic.rs
index 99b3f39..f0935c6 100644
--- a/crates/ass-editor/utils/search/basic.rs
+++ b/crates/ass-editor/utils/search/basic.rs
@@ -15,7 +15,10 @@ use std::borrow::Cow;
 use alloc::borrow::Cow;
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec::Vec};
+use alloc::{
+    string::{String, ToString},
+    vec::Vec,
+};
 
 impl DocumentSearchImpl {
     /// Perform basic text search without FST indexing
@@ -28,21 +31,15 @@ impl DocumentSearchImpl {
         let search_pattern = if options.case_sensitive {
             pattern.to_string()
         } else {
-            pattern.to_lowercase()
+            pattern.chars().flat_map(char::to_lowercase).collect()
         };
 
-        let search_text = if options.case_sensitive {
-            Cow::Borrowed(&self.cached_text)
-        } else {
-            Cow::Owned(self.cached_text.to_lowercase())
-        };
+        let search_text = &self.cached_text;
 
         // Apply search scope
         let (search_start, search_end) = match &options.scope {
             SearchScope::All => (0, search_text.len()),
-            SearchScope::Range(range) => {
-                (range.start.offset, range.end.offset.min(search_text.len()))
-            }
+            SearchScope::Range(range) => range.clamped_to(search_text),
             SearchScope::Lines { start, end } => {
                 // Calculate byte offsets for line range
                 let mut line_num = 0;
@@ -70,12 +67,34 @@ impl DocumentSearchImpl {
             }
         };
 
-        let search_region = &search_text[search_start..search_end];
+        // Lower-casing can change the length of the text: `origin` gives the place
+        // in the document of every byte of the searched text, and of its end
+        let mut search_region = String::new();
+        let mut origin = Vec::new();
+        for (i, ch) in search_text[search_start..search_end].char_indices() {
+            if options.case_sensitive {
+                search_region.push(ch);
+            } else {
+                search_region.extend(ch.to_lowercase());
+            }
+            origin.resize(search_region.len(), search_start + i);
+        }
+        origin.push(search_end);
         let mut region_offset = 0;
 
-        while let Some(match_idx) = search_region[region_offset..].find(&search_pattern) {
-            let absolute_idx = search_start + region_offset + match_idx;
-            let match_end = absolute_idx + search_pattern.len();
+        while let Some(match_idx) = search_region
+            .get(region_offset..)
+            .and_then(|rest| rest.find(&search_pattern))
+        {
+            let found = region_offset + match_idx;
+            let absolute_idx = origin[found];
+            // A match that ends inside a lower-cased character takes in all of it
+            let end = found + search_pattern.len();
+            let match_end = origin[end..]
+                .iter()
+                .copied()
+                .find(|&at| end == found || at != origin[end - 1])
+                .unwrap_or(search_end);
 
             // Calculate line and column
             let mut line = 0;
@@ -114,7 +133,11 @@ impl DocumentSearchImpl {
                 break;
             }
 
-            region_offset += match_idx + 1;
+            region_offset = found
+                + search_region[found..]
+                    .chars()
+                    .next()
+                    .map_or(1, char::len_utf8);
         }
 
         Ok(results)
diff --git a/crates/ass-editor/utils/search/incremental.rs b/crates/ass-editor/utils/search/incremental.rs
index eeee808..37ee033 100644
--- a/crates/ass-editor/utils/search/incremental.rs
+++ b/crates/ass-editor/utils/search/incremental.rs
@@ -1,34 +1,17 @@
-//! Incremental search-index updates
+//! Search-index updates
 //!
-//! Implements the incremental re-indexing path for
-//! [`DocumentSearchImpl`](super::DocumentSearchImpl) used when a document
-//! changes after an initial index build.
+//! Implements re-indexing for [`DocumentSearchImpl`](super::DocumentSearchImpl)
+//! when a document changes after an initial index build.
 
 use super::engine::DocumentSearchImpl;
-use crate::core::{EditorDocument, Range, Result};
-
-#[cfg(feature = "search-index")]
 use super::traits::DocumentSearch;
-
-#[cfg(feature = "search-index")]
-use crate::core::Position;
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::borrow::Cow;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::borrow::Cow;
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::collections::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use hashbrown::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::vec::Vec;
+use crate::core::{EditorDocument, Range, Result};
 
 impl DocumentSearchImpl {
+    /// Index the document anew if anything changed
+    ///
+    /// The changed ranges do not say how long the text that replaced them is,
+    /// so the words after them cannot be moved to where they are now.
     pub(super) fn update_index_impl(
         &mut self,
         document: &EditorDocument,
@@ -37,149 +20,6 @@ impl DocumentSearchImpl {
         if changes.is_empty() {
             return Ok(());
         }
-
-        // Update cached text first
-        self.cached_text = document.text();
-
-        // For non-FST search, we're done after updating the text
-        #[cfg(not(feature = "search-index"))]
-        {
-            self.document_version += 1;
-            self.result_cache.clear();
-            Ok(())
-        }
-
-        // For FST search, perform incremental updates
-        #[cfg(feature = "search-index")]
-        {
-            // Calculate total change size
-            let total_change_size: usize = changes
-                .iter()
-                .map(|r| r.end.offset.saturating_sub(r.start.offset))
-                .sum();
-
-            // If too many changes or large changes, rebuild entirely
-            if changes.len() > 10 || total_change_size > 1000 {
-                return self.build_index(document);
-            }
-
-            // Sort changes by position to process them in order
-            let mut sorted_changes = changes.to_vec();
-            sorted_changes.sort_by_key(|r| r.start.offset);
-
-            // Calculate cumulative offset adjustments
-            let mut offset_adjustments: Vec<(usize, isize)> = Vec::new();
-            let mut cumulative_adjustment = 0isize;
-
-            for change in &sorted_changes {
-                let old_len = change.end.offset - change.start.offset;
-                // Find the actual new text in this region
-                let new_text_region = &self.cached_text[change
-                    .start
-                    .offset
-                    .saturating_add_signed(cumulative_adjustment)..];
-
-                // Estimate new length by finding next unchanged content
-                let new_len = if let Some(next_change) = sorted_changes
-                    .iter()
-                    .find(|c| c.start.offset > change.end.offset)
-                {
-                    let expected_gap = next_change.start.offset - change.end.offset;
-                    new_text_region.len().min(expected_gap)
-                } else {
-                    // No more changes, estimate based on word boundaries
-                    new_text_region
-                        .find(['\n', '\r'])
-                        .unwrap_or(new_text_region.len().min(old_len * 2))
-                };
-
-                let adjustment = new_len as isize - old_len as isize;
-                offset_adjustments.push((change.start.offset, adjustment));
-                cumulative_adjustment += adjustment;
-            }
-
-            // Update word positions
-            let mut updated_positions = HashMap::new();
-
-            for (word, positions) in &self.word_positions {
-                let mut new_positions = Vec::new();
-
-                for &pos in positions {
-                    let mut adjusted_offset = pos.offset;
-                    let mut should_remove = false;
-
-                    // Check each change to see how it affects this position
-                    for (i, change) in sorted_changes.iter().enumerate() {
-                        if pos.offset >= change.start.offset && pos.offset < change.end.offset {
-                            // Word was in changed region - remove it
-                            should_remove = true;
-                            break;
-                        } else if pos.offset >= change.end.offset {
-                            // Word is after this change - apply adjustment
-                            let (_, adjustment) = offset_adjustments[i];
-                            adjusted_offset = adjusted_offset.saturating_add_signed(adjustment);
-                        }
-                    }
-
-                    if !should_remove {
-                        new_positions.push(Position::new(adjusted_offset));
-                    }
-                }
-
-                if !new_positions.is_empty() {
-                    updated_positions.insert(word.clone(), new_positions);
-                }
-            }
-
-            // Extract new words from changed regions
-            for (i, change) in sorted_changes.iter().enumerate() {
-                let start_adjustment: isize =
-                    offset_adjustments[..i].iter().map(|(_, adj)| adj).sum();
-                let adjusted_start = change.start.offset.saturating_add_signed(start_adjustment);
-
-                // Get text around the change
-                let extract_start = adjusted_start.saturating_sub(50);
-                let extract_end = (adjusted_start + 100).min(self.cached_text.len());
-
-                if extract_start < extract_end {
-                    let region_text = &self.cached_text[extract_start..extract_end];
-                    let new_words = self.extract_words(region_text);
-
-                    // Add new words with adjusted positions
-                    for (word, positions) in new_words {
-                        let entry = updated_positions.entry(word.into_owned()).or_default();
-                        for pos in positions {
-                            let global_pos = Position::new(pos.offset + extract_start);
-                            if !entry.contains(&global_pos) {
-                                entry.push(global_pos);
-                            }
-                        }
-                        entry.sort_by_key(|p| p.offset);
-                    }
-                }
-            }
-
-            // Update the word positions
-            self.word_positions = updated_positions;
-
-            // Rebuild FST with updated word list
-            if !self.word_positions.is_empty() {
-                let words: Vec<(Cow<str>, Vec<Position>)> = self
-                    .word_positions
-                    .iter()
-                    .map(|(k, v)| (Cow::Borrowed(k.as_str()), v.clone()))
-                    .collect();
-                self.word_index = Some(self.build_fst(&words)?);
-            } else {
-                self.word_index = None;
-            }
-
-            // Update statistics
-            self.stats.index_size = self.word_positions.len() * 50;
-            self.document_version += 1;
-            self.result_cache.clear();
-
-            Ok(())
-        }
+        self.build_index(document)
     }
 }
diff --git a/crates/ass-editor/utils/search/regex_search.rs b/crates/ass-editor/utils/search/regex_search.rs
index 92dbd0d..5f41f06 100644
--- a/crates/ass-editor/utils/search/regex_search.rs
+++ b/crates/ass-editor/utils/search/regex_search.rs
@@ -46,7 +46,7 @@ impl DocumentSearchImpl {
         // Apply search scope
         let (search_start, search_end) = match &options.scope {
             SearchScope::All => (0, text.len()),
-            SearchScope::Range(range) => (range.start.offset, range.end.offset.min(text.len())),
+            SearchScope::Range(range) => range.clamped_to(text),
             SearchScope::Lines { start, end } => {
                 // Calculate byte offsets for line range
                 let mut line_num = 0;
-- 
2.43.0


From 35b58719408d10f21143481fcf7713d3d4aebd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 33/76] fix: styles, events and blank fields changed through
 the script are tracked

---
 crates/ass-core/parser/script/batch.rs  | 55 +++++--------------------
 crates/ass-core/parser/script/mutate.rs | 18 ++++++--
 crates/ass-core/parser/script/update.rs | 19 ++++-----
 3 files changed, 32 insertions(+), 60 deletions(-)

diff --git a/crates/ass-core/parser/script/batch.rs b/crates/ass-core/parser/script/batch.rs
index 27cee4a..deca4b9 100644
--- a/crates/ass-core/parser/script/batch.rs
+++ b/crates/ass-core/parser/script/batch.rs
@@ -6,7 +6,6 @@
 
 use alloc::vec::Vec;
 
-use crate::parser::ast::Section;
 use crate::parser::errors::ParseError;
 
 use super::types::{BatchUpdateResult, EventBatch, StyleBatch, UpdateOperation};
@@ -64,28 +63,11 @@ impl<'a> Script<'a> {
     ///
     /// Indices of the added styles within the styles section
     pub fn batch_add_styles(&mut self, batch: StyleBatch<'a>) -> Vec<usize> {
-        let mut indices = Vec::with_capacity(batch.styles.len());
-
-        // Find or create styles section
-        let styles_section_index = self
-            .sections
-            .iter()
-            .position(|s| matches!(s, Section::Styles(_)));
-
-        if let Some(index) = styles_section_index {
-            if let Section::Styles(styles) = &mut self.sections[index] {
-                let start_index = styles.len();
-                styles.extend(batch.styles);
-                indices.extend(start_index..styles.len());
-            }
-        } else {
-            // Create new styles section
-            let count = batch.styles.len();
-            self.sections.push(Section::Styles(batch.styles));
-            indices.extend(0..count);
-        }
-
-        indices
+        batch
+            .styles
+            .into_iter()
+            .map(|style| self.add_style(style))
+            .collect()
     }
 
     /// Add multiple events in a single operation
@@ -100,28 +82,11 @@ impl<'a> Script<'a> {
     ///
     /// Indices of the added events within the events section
     pub fn batch_add_events(&mut self, batch: EventBatch<'a>) -> Vec<usize> {
-        let mut indices = Vec::with_capacity(batch.events.len());
-
-        // Find or create events section
-        let events_section_index = self
-            .sections
-            .iter()
-            .position(|s| matches!(s, Section::Events(_)));
-
-        if let Some(index) = events_section_index {
-            if let Section::Events(events) = &mut self.sections[index] {
-                let start_index = events.len();
-                events.extend(batch.events);
-                indices.extend(start_index..events.len());
-            }
-        } else {
-            // Create new events section
-            let count = batch.events.len();
-            self.sections.push(Section::Events(batch.events));
-            indices.extend(0..count);
-        }
-
-        indices
+        batch
+            .events
+            .into_iter()
+            .map(|event| self.add_event(event))
+            .collect()
     }
 
     /// Apply a batch of mixed operations atomically
diff --git a/crates/ass-core/parser/script/mutate.rs b/crates/ass-core/parser/script/mutate.rs
index 50f94cd..a05a45f 100644
--- a/crates/ass-core/parser/script/mutate.rs
+++ b/crates/ass-core/parser/script/mutate.rs
@@ -4,12 +4,12 @@
 //! drop whole sections, append styles to `[V4+ Styles]`, and append events to
 //! `[Events]`, creating the target section on demand.
 
-use alloc::vec;
+use alloc::{boxed::Box, vec};
 
 use crate::parser::ast::{Event, Section, Style};
 use crate::parser::errors::ParseError;
 
-use super::types::Change;
+use super::types::{Change, LineContent};
 use super::Script;
 
 impl<'a> Script<'a> {
@@ -81,6 +81,11 @@ impl<'a> Script<'a> {
 
         if let Some(index) = styles_section_index {
             if let Section::Styles(styles) = &mut self.sections[index] {
+                self.change_tracker.record(Change::Added {
+                    offset: style.span.start,
+                    line_number: style.span.line,
+                    content: LineContent::Style(Box::new(style.clone())),
+                });
                 styles.push(style);
                 styles.len() - 1
             } else {
@@ -88,7 +93,7 @@ impl<'a> Script<'a> {
             }
         } else {
             // Create new styles section
-            self.sections.push(Section::Styles(vec![style]));
+            self.add_section(Section::Styles(vec![style]));
             0
         }
     }
@@ -113,6 +118,11 @@ impl<'a> Script<'a> {
 
         if let Some(index) = events_section_index {
             if let Section::Events(events) = &mut self.sections[index] {
+                self.change_tracker.record(Change::Added {
+                    offset: event.span.start,
+                    line_number: event.span.line,
+                    content: LineContent::Event(Box::new(event.clone())),
+                });
                 events.push(event);
                 events.len() - 1
             } else {
@@ -120,7 +130,7 @@ impl<'a> Script<'a> {
             }
         } else {
             // Create new events section
-            self.sections.push(Section::Events(vec![event]));
+            self.add_section(Section::Events(vec![event]));
             0
         }
     }
diff --git a/crates/ass-core/parser/script/update.rs b/crates/ass-core/parser/script/update.rs
index a0d21db..0e66844 100644
--- a/crates/ass-core/parser/script/update.rs
+++ b/crates/ass-core/parser/script/update.rs
@@ -89,7 +89,7 @@ impl<'a> Script<'a> {
                         content: LineContent::Field(key, value),
                         line_number,
                     });
-                    Ok(LineContent::Field(key, ""))
+                    return Ok(LineContent::Field(key, ""));
                 }
             }
             _ => Err(ParseError::InvalidFieldFormat {
@@ -97,17 +97,14 @@ impl<'a> Script<'a> {
             }),
         };
 
-        // Record change if successful
+        // Record the modification if successful
         if let Ok(old_content) = &result {
-            if !matches!(old_content, LineContent::Field(_, "")) {
-                // This was a modification, not an addition
-                self.change_tracker.record(Change::Modified {
-                    offset,
-                    old_content: old_content.clone(),
-                    new_content,
-                    line_number,
-                });
-            }
+            self.change_tracker.record(Change::Modified {
+                offset,
+                old_content: old_content.clone(),
+                new_content,
+                line_number,
+            });
         }
 
         result
-- 
2.43.0


From 95abb72557cd1f3a43abc3bffebb1b4b73245f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 34/76] fix: delta matches repeated sections one to one

---
 crates/ass-core/parser/script/delta.rs | 27 +++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/ass-core/parser/script/delta.rs b/crates/ass-core/parser/script/delta.rs
index ee90476..209f1e0 100644
--- a/crates/ass-core/parser/script/delta.rs
+++ b/crates/ass-core/parser/script/delta.rs
@@ -55,12 +55,16 @@ pub fn calculate_delta<'a>(old_script: &Script<'a>, new_script: &Script<'a>) ->
     // Find modifications and removals
     for (idx, old_section) in old_sections.iter().enumerate() {
         let old_type = old_section.section_type();
+        let nth = old_sections[..idx]
+            .iter()
+            .filter(|s| s.section_type() == old_type)
+            .count();
 
-        // Look for matching section in new script
-        if let Some((_new_idx, new_section)) = new_sections
+        // Look for the matching section in new script: the nth of its type
+        if let Some(new_section) = new_sections
             .iter()
-            .enumerate()
-            .find(|(_, s)| s.section_type() == old_type)
+            .filter(|s| s.section_type() == old_type)
+            .nth(nth)
         {
             // Check if content changed (ignoring spans)
             if !sections_equal_ignoring_spans(old_section, new_section) {
@@ -73,11 +77,20 @@ pub fn calculate_delta<'a>(old_script: &Script<'a>, new_script: &Script<'a>) ->
     }
 
     // Find additions
-    for new_section in &new_sections {
+    for (idx, new_section) in new_sections.iter().enumerate() {
         let new_type = new_section.section_type();
+        let nth = new_sections[..idx]
+            .iter()
+            .filter(|s| s.section_type() == new_type)
+            .count();
 
-        // Check if this type exists in old script
-        if !old_sections.iter().any(|s| s.section_type() == new_type) {
+        // Check if old script has as many sections of this type
+        if old_sections
+            .iter()
+            .filter(|s| s.section_type() == new_type)
+            .nth(nth)
+            .is_none()
+        {
             added.push((*new_section).clone());
         }
     }
-- 
2.43.0


From 4aec1b0386934b110eb9b409b4f31319a187524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 35/76] fix: owned deltas carry sections as source text

---
 crates/ass-core/parser/script/partial.rs      |  10 +-
 crates/ass-core/parser/script/serialize.rs    | 100 ++++++++++--------
 crates/ass-editor/core/incremental/reparse.rs |  12 ++-
 3 files changed, 71 insertions(+), 51 deletions(-)

diff --git a/crates/ass-core/parser/script/partial.rs b/crates/ass-core/parser/script/partial.rs
index 893dc20..40b80b8 100644
--- a/crates/ass-core/parser/script/partial.rs
+++ b/crates/ass-core/parser/script/partial.rs
@@ -6,7 +6,7 @@
 
 use alloc::vec::Vec;
 #[cfg(feature = "stream")]
-use alloc::{format, string::ToString};
+use alloc::string::ToString;
 #[cfg(feature = "stream")]
 use core::ops::Range;
 
@@ -68,12 +68,16 @@ impl<'a> Script<'a> {
 
         // Convert added sections
         for section in delta.added {
-            owned_delta.added.push(format!("{section:?}"));
+            owned_delta
+                .added
+                .push(new_script.section_to_ass_string(&section));
         }
 
         // Convert modified sections
         for (idx, section) in delta.modified {
-            owned_delta.modified.push((idx, format!("{section:?}")));
+            owned_delta
+                .modified
+                .push((idx, new_script.section_to_ass_string(&section)));
         }
 
         // Convert removed sections
diff --git a/crates/ass-core/parser/script/serialize.rs b/crates/ass-core/parser/script/serialize.rs
index f6bf7dd..d84b165 100644
--- a/crates/ass-core/parser/script/serialize.rs
+++ b/crates/ass-core/parser/script/serialize.rs
@@ -35,61 +35,73 @@ impl Script<'_> {
                 result.push('\n');
             }
 
-            match section {
-                Section::ScriptInfo(info) => {
-                    result.push_str(&info.to_ass_string());
+            result.push_str(&self.section_to_ass_string(section));
+        }
+
+        result
+    }
+
+    /// Convert one section to ASS format, header included
+    ///
+    /// Styles and events use this script's format lines when it has them.
+    #[must_use]
+    pub fn section_to_ass_string(&self, section: &Section<'_>) -> String {
+        let mut result = String::new();
+
+        match section {
+            Section::ScriptInfo(info) => {
+                result.push_str(&info.to_ass_string());
+            }
+            Section::Styles(styles) => {
+                result.push_str("[V4+ Styles]\n");
+
+                // Add format line if available
+                if let Some(format) = &self.styles_format {
+                    result.push_str("Format: ");
+                    result.push_str(&format.join(", "));
+                    result.push('\n');
                 }
-                Section::Styles(styles) => {
-                    result.push_str("[V4+ Styles]\n");
 
-                    // Add format line if available
+                // Add each style
+                for style in styles {
                     if let Some(format) = &self.styles_format {
-                        result.push_str("Format: ");
-                        result.push_str(&format.join(", "));
-                        result.push('\n');
+                        result.push_str(&style.to_ass_string_with_format(format));
+                    } else {
+                        result.push_str(&style.to_ass_string());
                     }
+                    result.push('\n');
+                }
+            }
+            Section::Events(events) => {
+                result.push_str("[Events]\n");
 
-                    // Add each style
-                    for style in styles {
-                        if let Some(format) = &self.styles_format {
-                            result.push_str(&style.to_ass_string_with_format(format));
-                        } else {
-                            result.push_str(&style.to_ass_string());
-                        }
-                        result.push('\n');
-                    }
+                // Add format line if available
+                if let Some(format) = &self.events_format {
+                    result.push_str("Format: ");
+                    result.push_str(&format.join(", "));
+                    result.push('\n');
                 }
-                Section::Events(events) => {
-                    result.push_str("[Events]\n");
 
-                    // Add format line if available
+                // Add each event
+                for event in events {
                     if let Some(format) = &self.events_format {
-                        result.push_str("Format: ");
-                        result.push_str(&format.join(", "));
-                        result.push('\n');
-                    }
-
-                    // Add each event
-                    for event in events {
-                        if let Some(format) = &self.events_format {
-                            result.push_str(&event.to_ass_string_with_format(format));
-                        } else {
-                            result.push_str(&event.to_ass_string());
-                        }
-                        result.push('\n');
+                        result.push_str(&event.to_ass_string_with_format(format));
+                    } else {
+                        result.push_str(&event.to_ass_string());
                     }
+                    result.push('\n');
                 }
-                Section::Fonts(fonts) => {
-                    result.push_str("[Fonts]\n");
-                    for font in fonts {
-                        result.push_str(&font.to_ass_string());
-                    }
+            }
+            Section::Fonts(fonts) => {
+                result.push_str("[Fonts]\n");
+                for font in fonts {
+                    result.push_str(&font.to_ass_string());
                 }
-                Section::Graphics(graphics) => {
-                    result.push_str("[Graphics]\n");
-                    for graphic in graphics {
-                        result.push_str(&graphic.to_ass_string());
-                    }
+            }
+            Section::Graphics(graphics) => {
+                result.push_str("[Graphics]\n");
+                for graphic in graphics {
+                    result.push_str(&graphic.to_ass_string());
                 }
             }
         }
diff --git a/crates/ass-editor/core/incremental/reparse.rs b/crates/ass-editor/core/incremental/reparse.rs
index 17f8f9b..08c2d2f 100644
--- a/crates/ass-editor/core/incremental/reparse.rs
+++ b/crates/ass-editor/core/incremental/reparse.rs
@@ -10,7 +10,7 @@ use crate::core::{Range, Result};
 use ass_core::parser::{script::ScriptDeltaOwned, Script};
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::String, string::ToString, vec::Vec};
+use alloc::{string::String, string::ToString, vec::Vec};
 
 impl IncrementalParser {
     /// Force a full reparse of the document
@@ -35,12 +35,16 @@ impl IncrementalParser {
 
             // Convert added sections
             for section in delta.added {
-                owned_delta.added.push(format!("{section:?}"));
+                owned_delta
+                    .added
+                    .push(new_script.section_to_ass_string(&section));
             }
 
             // Convert modified sections
             for (idx, section) in delta.modified {
-                owned_delta.modified.push((idx, format!("{section:?}")));
+                owned_delta
+                    .modified
+                    .push((idx, new_script.section_to_ass_string(&section)));
             }
 
             // Copy removed indices
@@ -53,7 +57,7 @@ impl IncrementalParser {
                 added: new_script
                     .sections()
                     .iter()
-                    .map(|s| format!("{s:?}"))
+                    .map(|s| new_script.section_to_ass_string(s))
                     .collect(),
                 modified: Vec::new(),
                 removed: Vec::new(),
-- 
2.43.0


From d4544fab28df1fd63919abac4aa38fade780b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 36/76] fix: deltas of styles apply under every styles header

---
 .../ass-editor/core/document/delta_apply.rs   | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index 69a1915..fc06b7b 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -99,23 +99,24 @@ impl EditorDocument {
 
     /// Find the start offset of a section in the document
     fn find_section_start(&self, section: &Section) -> Result<usize> {
-        // Get the section header text
-        let header = match section {
-            Section::ScriptInfo(_) => "[Script Info]",
-            Section::Styles(_) => "[V4+ Styles]",
-            Section::Events(_) => "[Events]",
-            Section::Fonts(_) => "[Fonts]",
-            Section::Graphics(_) => "[Graphics]",
+        // Get the section headers this kind of section can have
+        let headers: &[&str] = match section {
+            Section::ScriptInfo(_) => &["[Script Info]"],
+            Section::Styles(_) => &["[V4+ Styles]", "[V4 Styles]", "[V4++ Styles]"],
+            Section::Events(_) => &["[Events]"],
+            Section::Fonts(_) => &["[Fonts]"],
+            Section::Graphics(_) => &["[Graphics]"],
         };
 
-        // Find the header in the document
-        if let Some(pos) = self.text().find(header) {
-            Ok(pos)
-        } else {
-            Err(EditorError::SectionNotFound {
-                section: header.to_string(),
+        // Find the first of them in the document
+        let text = self.text();
+        headers
+            .iter()
+            .filter_map(|header| text.find(header))
+            .min()
+            .ok_or_else(|| EditorError::SectionNotFound {
+                section: headers[0].to_string(),
             })
-        }
     }
 
     /// Find the end offset of a section in the document
-- 
2.43.0


From 0f26f647b28b057cab09c97290bebd4a5caefaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 37/76] fix: inherited styles keep their parent when serialised

---
 crates/ass-core/parser/ast/style/conversion.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/ast/style/conversion.rs b/crates/ass-core/parser/ast/style/conversion.rs
index 675b198..acab38f 100644
--- a/crates/ass-core/parser/ast/style/conversion.rs
+++ b/crates/ass-core/parser/ast/style/conversion.rs
@@ -36,8 +36,9 @@ impl Style<'_> {
     pub fn to_ass_string(&self) -> alloc::string::String {
         // Use standard V4+ format by default
         // TODO: Support custom format lines
+        let parent = self.parent_prefix();
         format!(
-            "Style: {},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
+            "Style: {parent}{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
             self.name,
             self.fontname,
             self.fontsize,
@@ -128,7 +129,14 @@ impl Style<'_> {
         }
 
         let joined = field_values.join(",");
-        format!("Style: {joined}")
+        let parent = self.parent_prefix();
+        format!("Style: {parent}{joined}")
+    }
+
+    /// The leading `*Parent,` of a style that inherits from another one
+    fn parent_prefix(&self) -> alloc::string::String {
+        self.parent
+            .map_or_else(alloc::string::String::new, |parent| format!("*{parent},"))
     }
 
     /// Validate all spans in this Style reference valid source
-- 
2.43.0


From 30f6991f33e5db161e0030b430f2720ed033409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 38/76] fix: both Aegisub section processors are registered

---
 .../registry_integration/builtins.rs           | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/ass-editor/extensions/registry_integration/builtins.rs b/crates/ass-editor/extensions/registry_integration/builtins.rs
index ccc15e4..513d1e4 100644
--- a/crates/ass-editor/extensions/registry_integration/builtins.rs
+++ b/crates/ass-editor/extensions/registry_integration/builtins.rs
@@ -8,7 +8,7 @@ use super::RegistryIntegration;
 use crate::core::{EditorError, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{boxed::Box, format, string::ToString};
+use alloc::{format, string::ToString};
 
 impl RegistryIntegration {
     /// Register all built-in tag handlers from ass-core
@@ -142,13 +142,15 @@ impl RegistryIntegration {
     pub fn register_builtin_sections(&mut self) -> Result<()> {
         use ass_core::plugin::sections::*;
 
-        // Register Aegisub section processor
-        self.registry
-            .register_section_processor(Box::new(aegisub::AegisubProjectProcessor))
-            .map_err(|e| EditorError::ExtensionError {
-                extension: "builtin".to_string(),
-                message: format!("Failed to register Aegisub section processor: {e}"),
-            })?;
+        // Register Aegisub section processors
+        for processor in aegisub::create_aegisub_processors() {
+            self.registry
+                .register_section_processor(processor)
+                .map_err(|e| EditorError::ExtensionError {
+                    extension: "builtin".to_string(),
+                    message: format!("Failed to register Aegisub section processor: {e}"),
+                })?;
+        }
 
         Ok(())
     }
-- 
2.43.0


From 997ff9855d7eeea5f192cb4c7bc3e0d823670165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 39/76] fix: report times beyond the centisecond range instead
 of overflowing

---
 crates/ass-core/utils/time.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/utils/time.rs b/crates/ass-core/utils/time.rs
index 53f1a4b..1a3c583 100644
--- a/crates/ass-core/utils/time.rs
+++ b/crates/ass-core/utils/time.rs
@@ -83,7 +83,11 @@ pub fn parse_ass_time(time_str: &str) -> Result<u32, CoreError> {
         )));
     }
 
-    Ok(hours * 360_000 + minutes * 6_000 + seconds * 100 + centiseconds)
+    hours
+        .checked_mul(360_000)
+        .and_then(|cs| cs.checked_add(minutes * 6_000 + seconds * 100))
+        .and_then(|cs| cs.checked_add(centiseconds))
+        .ok_or_else(|| CoreError::InvalidTime(format!("Time out of range: {time_str}")))
 }
 
 /// Format centiseconds back to ASS time format
-- 
2.43.0


From 2e73b8212c0982f83a3b724270349c1af8f612f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 40/76] fix: do not overflow the millisecond duration of very
 long events

---
 crates/ass-core/analysis/events/dialogue_info/accessors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/events/dialogue_info/accessors.rs b/crates/ass-core/analysis/events/dialogue_info/accessors.rs
index e63daca..27c7d43 100644
--- a/crates/ass-core/analysis/events/dialogue_info/accessors.rs
+++ b/crates/ass-core/analysis/events/dialogue_info/accessors.rs
@@ -16,7 +16,7 @@ impl<'a> DialogueInfo<'a> {
     /// Get event duration in milliseconds
     #[must_use]
     pub const fn duration_ms(&self) -> u32 {
-        (self.end_cs - self.start_cs) * 10
+        (self.end_cs - self.start_cs).saturating_mul(10)
     }
 
     /// Get event duration in centiseconds
-- 
2.43.0


From be6ae303d82d834f5ffa71fb7216fd962b569c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 41/76] fix: invalid-color lint panicked on override tags
 starting with a multi-byte character

---
 crates/ass-core/analysis/linting/rules/invalid_color/rule.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
index 9666c3d..f27f427 100644
--- a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
@@ -157,7 +157,7 @@ impl InvalidColorRule {
         }
 
         if tag_part.len() >= 3 {
-            let first_char = &tag_part[..1];
+            let first_char = tag_part.get(..1)?;
             if ["1", "2", "3", "4"].contains(&first_char) && tag_part[1..].starts_with("c&H") {
                 let color_part = tag_part[1..].strip_prefix("c&H")?;
                 let color_end = color_part.find('&')?;
-- 
2.43.0


From 438d82db8b3f84c5f1189d7836b40b248002ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 42/76] fix: PositionTracker::new_at underflowed for column 0

---
 crates/ass-core/parser/position_tracker/tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/position_tracker/tracker.rs b/crates/ass-core/parser/position_tracker/tracker.rs
index fc9e20c..edbce2c 100644
--- a/crates/ass-core/parser/position_tracker/tracker.rs
+++ b/crates/ass-core/parser/position_tracker/tracker.rs
@@ -41,7 +41,7 @@ impl<'a> PositionTracker<'a> {
             offset,
             line,
             column,
-            line_start: offset.saturating_sub((column - 1) as usize),
+            line_start: offset.saturating_sub(column.saturating_sub(1) as usize),
         }
     }
 
-- 
2.43.0


From 6340adb102a10c8bc51d2d24d02e3ddca65862df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 43/76] fix: find_section_end panicked on hints past the end or
 inside a character

---
 crates/ass-core/parser/incremental/section_bounds.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ass-core/parser/incremental/section_bounds.rs b/crates/ass-core/parser/incremental/section_bounds.rs
index 205c7d0..4a43fe5 100644
--- a/crates/ass-core/parser/incremental/section_bounds.rs
+++ b/crates/ass-core/parser/incremental/section_bounds.rs
@@ -66,6 +66,10 @@ pub fn find_section_end(
         "[Graphics]",
     ];
 
+    let mut end_hint = end_hint.min(source.len());
+    while !source.is_char_boundary(end_hint) {
+        end_hint -= 1;
+    }
     let search_text = &source[end_hint..];
 
     // Find the nearest section header
-- 
2.43.0


From cbc87194c927bce552beaf02ee349ab4c930bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 44/76] fix: parse_partial returns an error for ranges outside
 the source instead of panicking

---
 crates/ass-core/parser/script/partial.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/script/partial.rs b/crates/ass-core/parser/script/partial.rs
index 40b80b8..1ff2b4d 100644
--- a/crates/ass-core/parser/script/partial.rs
+++ b/crates/ass-core/parser/script/partial.rs
@@ -12,7 +12,7 @@ use core::ops::Range;
 
 use crate::parser::ast::Section;
 #[cfg(feature = "stream")]
-use crate::parser::streaming;
+use crate::parser::{streaming, ParseError};
 #[cfg(feature = "stream")]
 use crate::Result;
 
@@ -41,6 +41,10 @@ impl<'a> Script<'a> {
     /// other unrecoverable syntax errors in the specified range.
     #[cfg(feature = "stream")]
     pub fn parse_partial(&self, range: Range<usize>, new_text: &str) -> Result<ScriptDeltaOwned> {
+        if self.source.get(range.clone()).is_none() {
+            return Err(ParseError::IndexOutOfBounds.into());
+        }
+
         // Build the modified source
         let modified_source =
             streaming::build_modified_source(self.source, range.clone(), new_text);
-- 
2.43.0


From 89dd2da4ff111622711a069ba32e5d33f991ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 45/76] fix: CharNavigator::new panicked on positions outside
 the source or inside a character

---
 crates/ass-core/tokenizer/scanner/navigator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ass-core/tokenizer/scanner/navigator.rs b/crates/ass-core/tokenizer/scanner/navigator.rs
index 1daa4e0..82d0e1e 100644
--- a/crates/ass-core/tokenizer/scanner/navigator.rs
+++ b/crates/ass-core/tokenizer/scanner/navigator.rs
@@ -36,6 +36,10 @@ impl<'a> CharNavigator<'a> {
     /// Create new character navigator
     #[must_use]
     pub fn new(source: &'a str, position: usize, line: usize, column: usize) -> Self {
+        let mut position = position.min(source.len());
+        while !source.is_char_boundary(position) {
+            position -= 1;
+        }
         Self {
             source,
             position,
-- 
2.43.0


From e7d7fe3c280f3f3235764c2a38a9543b75532fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 46/76] fix: build_modified_source panicked on ranges outside
 the source

---
 crates/ass-core/parser/streaming/source.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/ass-core/parser/streaming/source.rs b/crates/ass-core/parser/streaming/source.rs
index 4ce29c7..2a4df31 100644
--- a/crates/ass-core/parser/streaming/source.rs
+++ b/crates/ass-core/parser/streaming/source.rs
@@ -22,17 +22,25 @@ use core::ops::Range;
 /// A new string with the replacement applied
 #[must_use]
 pub fn build_modified_source(original: &str, range: Range<usize>, replacement: &str) -> String {
-    let mut result =
-        String::with_capacity(original.len() - (range.end - range.start) + replacement.len());
+    let boundary = |position: usize| {
+        let mut position = position.min(original.len());
+        while !original.is_char_boundary(position) {
+            position -= 1;
+        }
+        position
+    };
+    let start = boundary(range.start);
+    let end = boundary(range.end).max(start);
+    let mut result = String::with_capacity(original.len() - (end - start) + replacement.len());
 
     // Add text before the range
-    result.push_str(&original[..range.start]);
+    result.push_str(&original[..start]);
 
     // Add replacement text
     result.push_str(replacement);
 
     // Add text after the range
-    result.push_str(&original[range.end..]);
+    result.push_str(&original[end..]);
 
     result
 }
-- 
2.43.0


From b8795735e89c7f0a240a469c73fd3c6358db3381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 47/76] fix: reversed change ranges underflowed while adjusting
 spans

---
 crates/ass-core/parser/incremental/range_adjust.rs | 4 ++--
 crates/ass-core/parser/script/partial.rs           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/parser/incremental/range_adjust.rs b/crates/ass-core/parser/incremental/range_adjust.rs
index fa6ea61..775725f 100644
--- a/crates/ass-core/parser/incremental/range_adjust.rs
+++ b/crates/ass-core/parser/incremental/range_adjust.rs
@@ -25,7 +25,7 @@ pub fn adjust_range_for_change(original_range: Range<usize>, change: &TextChange
     // Case 1: Change is entirely before the range
     if change.range.end <= original_range.start {
         let new_len = change.new_text.len();
-        let old_len = change.range.end - change.range.start;
+        let old_len = change.range.len();
 
         if new_len >= old_len {
             let offset = new_len - old_len;
@@ -47,7 +47,7 @@ pub fn adjust_range_for_change(original_range: Range<usize>, change: &TextChange
 
     // End needs adjustment based on size difference
     let new_len = change.new_text.len();
-    let old_len = change.range.end - change.range.start;
+    let old_len = change.range.len();
     let new_end = if change.range.end >= original_range.end {
         // Change extends past range
         change.range.start + new_len
diff --git a/crates/ass-core/parser/script/partial.rs b/crates/ass-core/parser/script/partial.rs
index 1ff2b4d..bfc4fe7 100644
--- a/crates/ass-core/parser/script/partial.rs
+++ b/crates/ass-core/parser/script/partial.rs
@@ -102,7 +102,7 @@ impl<'a> Script<'a> {
 
         // Calculate the offset caused by the change
         let new_len = change.new_text.len();
-        let old_len = change.range.end - change.range.start;
+        let old_len = change.range.len();
 
         // Helper to adjust a span using safe arithmetic
         let adjust_span = |span: &Span| -> Span {
-- 
2.43.0


From c03cce02bfe2c625a2bac419c8566ef2b631c350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 48/76] fix: a backslash before a multi-byte character panicked
 the override tag parsers

---
 crates/ass-core/analysis/events/tags/parser.rs        | 11 +++++------
 .../ass-core/analysis/events/tags/registry_parser.rs  | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/crates/ass-core/analysis/events/tags/parser.rs b/crates/ass-core/analysis/events/tags/parser.rs
index f303298..3980a94 100644
--- a/crates/ass-core/analysis/events/tags/parser.rs
+++ b/crates/ass-core/analysis/events/tags/parser.rs
@@ -138,16 +138,15 @@ pub fn parse_override_block<'a>(
                     });
                 }
             } else {
-                let span_end = (tag_start + 2).min(content.len());
-                diagnostics.push(TagDiagnostic {
-                    span: &content[tag_start..span_end],
-                    offset: start_pos + tag_start,
-                    kind: DiagnosticKind::EmptyOverride,
-                });
                 if char_pos < chars.len() {
                     byte_pos += chars[char_pos].len_utf8();
                     char_pos += 1;
                 }
+                diagnostics.push(TagDiagnostic {
+                    span: &content[tag_start..byte_pos],
+                    offset: start_pos + tag_start,
+                    kind: DiagnosticKind::EmptyOverride,
+                });
             }
         } else {
             byte_pos += chars[char_pos].len_utf8();
diff --git a/crates/ass-core/analysis/events/tags/registry_parser.rs b/crates/ass-core/analysis/events/tags/registry_parser.rs
index 8fae0b5..72cd83d 100644
--- a/crates/ass-core/analysis/events/tags/registry_parser.rs
+++ b/crates/ass-core/analysis/events/tags/registry_parser.rs
@@ -132,16 +132,15 @@ pub fn parse_override_block_with_registry<'a>(
                     }
                 }
             } else {
-                let span_end = (tag_start + 2).min(content.len());
-                diagnostics.push(TagDiagnostic {
-                    span: &content[tag_start..span_end],
-                    offset: start_pos + tag_start,
-                    kind: DiagnosticKind::EmptyOverride,
-                });
                 if char_pos < chars.len() {
                     byte_pos += chars[char_pos].len_utf8();
                     char_pos += 1;
                 }
+                diagnostics.push(TagDiagnostic {
+                    span: &content[tag_start..byte_pos],
+                    offset: start_pos + tag_start,
+                    kind: DiagnosticKind::EmptyOverride,
+                });
             }
         } else {
             byte_pos += chars[char_pos].len_utf8();
-- 
2.43.0


From a90bb924ceec13a87dd9796947bdacfd0587920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 49/76] fix: an unclosed override block at the end of the text
 panicked the analysis

---
 .../analysis/events/text_analysis/parser.rs         | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/analysis/events/text_analysis/parser.rs b/crates/ass-core/analysis/events/text_analysis/parser.rs
index ae9e2a8..113d3f7 100644
--- a/crates/ass-core/analysis/events/text_analysis/parser.rs
+++ b/crates/ass-core/analysis/events/text_analysis/parser.rs
@@ -56,8 +56,15 @@ impl<'a> TextAnalysis<'a> {
                     }
                 }
 
-                if position > tag_start {
-                    let tag_content = &text[tag_start..position];
+                // An unclosed block runs to the end of the text
+                let tag_end = if brace_count == 0 {
+                    position
+                } else {
+                    text.len()
+                };
+
+                if tag_end > tag_start {
+                    let tag_content = &text[tag_start..tag_end];
 
                     #[cfg(feature = "plugins")]
                     if let Some(registry) = registry {
@@ -89,7 +96,7 @@ impl<'a> TextAnalysis<'a> {
                     drawing_mode = Self::update_drawing_mode(tag_content, drawing_mode);
                 } else {
                     parse_diagnostics.push(TagDiagnostic {
-                        span: &text[tag_start..position.max(tag_start + 1)],
+                        span: &text[tag_start..(tag_start + 1).min(text.len())],
                         offset: tag_start,
                         kind: DiagnosticKind::EmptyOverride,
                     });
-- 
2.43.0


From b33b6bd5e9479394b2f5fec328740f007269ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 50/76] fix: format lookup by extension depended on hash order
 when two formats share one

---
 crates/ass-editor/formats/registry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/ass-editor/formats/registry.rs b/crates/ass-editor/formats/registry.rs
index 41e0f0a..f2becc2 100644
--- a/crates/ass-editor/formats/registry.rs
+++ b/crates/ass-editor/formats/registry.rs
@@ -5,15 +5,15 @@
 
 use super::{Format, FormatExporter, FormatImporter, FormatOptions, FormatResult};
 use crate::core::{EditorDocument, EditorError};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::path::Path;
 
 /// Registry for managing available formats
 #[derive(Debug, Default)]
 pub struct FormatRegistry {
-    pub(super) importers: HashMap<String, Box<dyn FormatImporter>>,
-    pub(super) exporters: HashMap<String, Box<dyn FormatExporter>>,
-    pub(super) formats: HashMap<String, Box<dyn Format>>,
+    pub(super) importers: BTreeMap<String, Box<dyn FormatImporter>>,
+    pub(super) exporters: BTreeMap<String, Box<dyn FormatExporter>>,
+    pub(super) formats: BTreeMap<String, Box<dyn Format>>,
 }
 
 impl FormatRegistry {
-- 
2.43.0


From 34712c5c4bbdb570f26a0cc7d26a4348c2d8dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 51/76] fix: list_sessions returned the sessions in hash order

---
 crates/ass-editor/sessions/lifecycle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/sessions/lifecycle.rs b/crates/ass-editor/sessions/lifecycle.rs
index 25ffc2b..b9b9f0f 100644
--- a/crates/ass-editor/sessions/lifecycle.rs
+++ b/crates/ass-editor/sessions/lifecycle.rs
@@ -112,7 +112,10 @@ impl EditorSessionManager {
 
     /// List all session IDs
     pub fn list_sessions(&self) -> Result<Vec<String>> {
-        Ok(self.with_inner(|inner| inner.sessions.keys().cloned().collect()))
+        let mut ids: Vec<String> =
+            self.with_inner(|inner| inner.sessions.keys().cloned().collect());
+        ids.sort();
+        Ok(ids)
     }
 }
 
-- 
2.43.0


From 1cb582dac67324b55bc53d54914ccb857aecc5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 52/76] fix: extension and command lists came in hash order

---
 crates/ass-editor/extensions/manager_access.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/extensions/manager_access.rs b/crates/ass-editor/extensions/manager_access.rs
index 5c69fe3..6a08bd5 100644
--- a/crates/ass-editor/extensions/manager_access.rs
+++ b/crates/ass-editor/extensions/manager_access.rs
@@ -45,7 +45,10 @@ impl ExtensionManager {
 
     /// Get list of loaded extensions
     pub fn list_extensions(&self) -> Vec<String> {
-        self.with_inner(|inner| inner.extensions.keys().cloned().collect())
+        let mut names: Vec<String> =
+            self.with_inner(|inner| inner.extensions.keys().cloned().collect());
+        names.sort();
+        names
     }
 
     /// Get extension state
@@ -55,7 +58,10 @@ impl ExtensionManager {
 
     /// Get all available commands
     pub fn list_commands(&self) -> Vec<String> {
-        self.with_inner(|inner| inner.commands.keys().cloned().collect())
+        let mut names: Vec<String> =
+            self.with_inner(|inner| inner.commands.keys().cloned().collect());
+        names.sort();
+        names
     }
 
     /// Get configuration value
-- 
2.43.0


From aed4cd986a0abdb615cf1308c4422342adf5acb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 53/76] fix: DocumentPool::list_documents returned the
 documents in hash order

---
 crates/ass-editor/core/thread_safety/document_pool.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/core/thread_safety/document_pool.rs b/crates/ass-editor/core/thread_safety/document_pool.rs
index 936c13d..076466c 100644
--- a/crates/ass-editor/core/thread_safety/document_pool.rs
+++ b/crates/ass-editor/core/thread_safety/document_pool.rs
@@ -84,7 +84,9 @@ impl DocumentPool {
                 message: "Failed to acquire pool read lock".to_string(),
             })?;
 
-        Ok(docs.keys().cloned().collect())
+        let mut ids: Vec<String> = docs.keys().cloned().collect();
+        ids.sort();
+        Ok(ids)
     }
 
     /// Get the number of documents in the pool
-- 
2.43.0


From f103b1a53dc2f977c96e0049190aae34c66618b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 54/76] fix: linear search returned its results in hash order

---
 crates/ass-editor/utils/indexing/linear.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/ass-editor/utils/indexing/linear.rs b/crates/ass-editor/utils/indexing/linear.rs
index fd9a794..68d63c3 100644
--- a/crates/ass-editor/utils/indexing/linear.rs
+++ b/crates/ass-editor/utils/indexing/linear.rs
@@ -121,6 +121,9 @@ impl DocumentSearch for LinearSearchIndex {
             }
         }
 
+        // The words are visited in no particular order
+        results.sort_by_key(|result| result.start.offset);
+
         Ok(results)
     }
 
-- 
2.43.0


From c6fa4305bd7baa0be77ebcc13078945cb1fe9caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 55/76] fix: section completion panicked at column 0 or inside
 a character

---
 .../extensions/builtin/auto_complete/completions.rs          | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/extensions/builtin/auto_complete/completions.rs b/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
index bd7bd0e..3600cd0 100644
--- a/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
+++ b/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
@@ -25,7 +25,10 @@ impl AutoCompleteExtension {
         ];
 
         let prefix = if context.line.starts_with('[') {
-            &context.line[1..context.column.min(context.line.len())]
+            context
+                .line
+                .get(1..context.column.min(context.line.len()))
+                .unwrap_or("")
         } else {
             ""
         };
-- 
2.43.0


From 66292be88463cde3567b36d131c180b155d0a68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 56/76] fix: removing tags panicked on a pattern that does not
 start with a one-byte character

---
 crates/ass-editor/commands/tag_commands/remove.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-editor/commands/tag_commands/remove.rs b/crates/ass-editor/commands/tag_commands/remove.rs
index be7a97a..c97d86e 100644
--- a/crates/ass-editor/commands/tag_commands/remove.rs
+++ b/crates/ass-editor/commands/tag_commands/remove.rs
@@ -128,7 +128,7 @@ impl RemoveTagCommand {
 
             // Process tags from ass-core parser
             for tag in &tags {
-                let pattern_without_backslash = &pattern[1..]; // Remove leading backslash from pattern
+                let pattern_without_backslash = pattern.strip_prefix('\\').unwrap_or(pattern);
                 if !tag.name().starts_with(pattern_without_backslash) {
                     // This tag should be kept - track its position
                     processed_positions.push((tag.position(), tag.name(), tag.args()));
-- 
2.43.0


From 30fbadf8a309c79581fb38ed92bf2eaa76fc84b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 57/76] fix: event queries overflowed on large times

---
 crates/ass-editor/core/fluent/event_query_filter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/core/fluent/event_query_filter.rs b/crates/ass-editor/core/fluent/event_query_filter.rs
index f0bf6f1..b087a06 100644
--- a/crates/ass-editor/core/fluent/event_query_filter.rs
+++ b/crates/ass-editor/core/fluent/event_query_filter.rs
@@ -118,7 +118,11 @@ impl EventQuery<'_> {
             .parse()
             .map_err(|_| EditorError::command_failed("Invalid centiseconds"))?;
 
-        Ok(hours * 360000 + minutes * 6000 + seconds * 100 + centiseconds)
+        let total = u64::from(hours) * 360_000
+            + u64::from(minutes) * 6_000
+            + u64::from(seconds) * 100
+            + u64::from(centiseconds);
+        u32::try_from(total).map_err(|_| EditorError::command_failed("Time out of range"))
     }
 
     pub(super) fn compare_by_criteria(
-- 
2.43.0


From ef2f72513ea469d42fcadab2e59b037994bba2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 58/76] fix: srt export overflowed on a long fraction of a
 second

---
 crates/ass-editor/formats/srt/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-editor/formats/srt/time.rs b/crates/ass-editor/formats/srt/time.rs
index 089fdb3..c86a522 100644
--- a/crates/ass-editor/formats/srt/time.rs
+++ b/crates/ass-editor/formats/srt/time.rs
@@ -47,7 +47,7 @@ impl SrtFormat {
             let cs: u32 = cs_part.parse().map_err(|_| {
                 EditorError::InvalidFormat(format!("Invalid centiseconds: {cs_part}"))
             })?;
-            let ms = cs * 10; // Convert to milliseconds
+            let ms = u64::from(cs) * 10; // Convert to milliseconds
 
             // Ensure hours are zero-padded for SRT format
             let parts: Vec<&str> = time_part.split(':').collect();
-- 
2.43.0


From 2bfc7b36a712343e99bda37c44877c1ced57c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 59/76] fix: webvtt export overflowed on a long fraction of a
 second

---
 crates/ass-editor/formats/webvtt/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-editor/formats/webvtt/time.rs b/crates/ass-editor/formats/webvtt/time.rs
index dae8582..462f0c9 100644
--- a/crates/ass-editor/formats/webvtt/time.rs
+++ b/crates/ass-editor/formats/webvtt/time.rs
@@ -72,7 +72,7 @@ impl WebVttFormat {
             let cs: u32 = cs_part.parse().map_err(|_| {
                 EditorError::InvalidFormat(format!("Invalid centiseconds: {cs_part}"))
             })?;
-            let ms = cs * 10; // Convert to milliseconds
+            let ms = u64::from(cs) * 10; // Convert to milliseconds
 
             // Ensure hours are zero-padded for WebVTT format
             let parts: Vec<&str> = time_part.split(':').collect();
-- 
2.43.0


From d8c73fc6c23aea8b64a4307dcb04f9d4dbae1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 60/76] fix: srt conversion overflowed on a long fraction of a
 second

---
 crates/ass-editor/utils/formats/export_srt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-editor/utils/formats/export_srt.rs b/crates/ass-editor/utils/formats/export_srt.rs
index 145911d..ded7973 100644
--- a/crates/ass-editor/utils/formats/export_srt.rs
+++ b/crates/ass-editor/utils/formats/export_srt.rs
@@ -85,7 +85,7 @@ impl FormatConverter {
         let centiseconds = seconds_parts.get(1).unwrap_or(&"00");
 
         // Convert centiseconds to milliseconds
-        let millis = centiseconds.parse::<u32>().unwrap_or(0) * 10;
+        let millis = u64::from(centiseconds.parse::<u32>().unwrap_or(0)) * 10;
 
         format!("{hours}:{minutes}:{seconds},{millis:03}")
     }
-- 
2.43.0


From 27c26dd3e0e55d23ed5b2cedf2d44b6effa4d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 61/76] fix: webvtt conversion overflowed on a long fraction of
 a second

---
 crates/ass-editor/utils/formats/export_webvtt.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/utils/formats/export_webvtt.rs b/crates/ass-editor/utils/formats/export_webvtt.rs
index a8d1eee..ec16646 100644
--- a/crates/ass-editor/utils/formats/export_webvtt.rs
+++ b/crates/ass-editor/utils/formats/export_webvtt.rs
@@ -59,7 +59,8 @@ impl FormatConverter {
                                 // Parse margins as integers for positioning
                                 let margin_v: i32 = event.margin_v.parse().unwrap_or(0);
                                 if margin_v != 0 {
-                                    output.push_str(&format!(" line:{}", 100 - margin_v));
+                                    output
+                                        .push_str(&format!(" line:{}", 100 - i64::from(margin_v)));
                                 }
                             }
 
@@ -100,7 +101,7 @@ impl FormatConverter {
         let centiseconds = seconds_parts.get(1).unwrap_or(&"00");
 
         // Convert centiseconds to milliseconds
-        let millis = centiseconds.parse::<u32>().unwrap_or(0) * 10;
+        let millis = u64::from(centiseconds.parse::<u32>().unwrap_or(0)) * 10;
 
         format!("{hours}:{minutes}:{seconds}.{millis:03}")
     }
-- 
2.43.0


From 2bcde52a9049c98dd4a352c76fa660d33ec6a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 62/76] fix: timing adjustment overflowed on large times and
 offsets

---
 crates/ass-editor/commands/event_commands/timing.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/timing.rs b/crates/ass-editor/commands/event_commands/timing.rs
index d2b4fd4..84e5c9b 100644
--- a/crates/ass-editor/commands/event_commands/timing.rs
+++ b/crates/ass-editor/commands/event_commands/timing.rs
@@ -56,7 +56,7 @@ impl TimingAdjustCommand {
     /// Scale duration (multiply by factor)
     pub fn scale_duration(event_indices: Vec<usize>, factor: f64) -> Self {
         // This is a simplified version - actual implementation would need to calculate per-event
-        let offset = (factor * 100.0) as i32 - 100; // Convert factor to centisecond offset
+        let offset = ((factor * 100.0) as i32).saturating_sub(100); // Convert factor to centisecond offset
         Self::new(event_indices, 0, offset)
     }
 
@@ -114,12 +114,11 @@ impl EditorCommand for TimingAdjustCommand {
                             (event.start_time_cs(), event.end_time_cs())
                         {
                             // Apply offsets
-                            let new_start_cs =
-                                (start_cs as i32 + self.start_offset_cs).max(0) as u32;
-                            let new_end_cs = (end_cs as i32 + self.end_offset_cs).max(0) as u32;
+                            let new_start_cs = start_cs.saturating_add_signed(self.start_offset_cs);
+                            let new_end_cs = end_cs.saturating_add_signed(self.end_offset_cs);
 
                             // Ensure end time is after start time
-                            let final_end_cs = new_end_cs.max(new_start_cs + 1);
+                            let final_end_cs = new_end_cs.max(new_start_cs.saturating_add(1));
 
                             let new_start_time = format_ass_time(new_start_cs);
                             let new_end_time = format_ass_time(final_end_cs);
-- 
2.43.0


From 106364c7a2e3cb3b059bb2d204a1463aaf196dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 63/76] fix: deleting events panicked on a last line that ends
 in a multi-byte character

---
 crates/ass-editor/commands/event_commands/batch_delete.rs | 2 +-
 crates/ass-editor/commands/event_commands/delete.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/batch_delete.rs b/crates/ass-editor/commands/event_commands/batch_delete.rs
index 5b710c0..a0cf5be 100644
--- a/crates/ass-editor/commands/event_commands/batch_delete.rs
+++ b/crates/ass-editor/commands/event_commands/batch_delete.rs
@@ -68,7 +68,7 @@ impl EditorCommand for BatchDeleteEventsCommand {
                 break;
             }
 
-            let line = &content[event_start..line_end.saturating_sub(1)];
+            let line = &content[event_start..line_end];
 
             if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
                 event_positions.push((current_index, event_start, line_end));
diff --git a/crates/ass-editor/commands/event_commands/delete.rs b/crates/ass-editor/commands/event_commands/delete.rs
index 400334a..505e883 100644
--- a/crates/ass-editor/commands/event_commands/delete.rs
+++ b/crates/ass-editor/commands/event_commands/delete.rs
@@ -56,7 +56,7 @@ impl EditorCommand for DeleteEventCommand {
                 break;
             }
 
-            let line = &content[event_start..line_end.saturating_sub(1)]; // Check without newline
+            let line = &content[event_start..line_end];
 
             if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
                 if current_index == self.event_index {
-- 
2.43.0


From a377afd11182fc49f78e3f24905cc07a7dbeb021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 64/76] fix: a WebVTT cue without an end time panicked

---
 crates/ass-editor/formats/webvtt/cue.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/formats/webvtt/cue.rs b/crates/ass-editor/formats/webvtt/cue.rs
index f283d7d..ae215fe 100644
--- a/crates/ass-editor/formats/webvtt/cue.rs
+++ b/crates/ass-editor/formats/webvtt/cue.rs
@@ -100,7 +100,8 @@ impl WebVttFormat {
 
             let start_time = Self::parse_vtt_time(parts[0])?;
             let end_time_and_settings: Vec<&str> = parts[1].split_whitespace().collect();
-            let end_time = Self::parse_vtt_time(end_time_and_settings[0])?;
+            let end_time =
+                Self::parse_vtt_time(end_time_and_settings.first().copied().unwrap_or(""))?;
 
             // Parse cue settings if present
             let cue_settings = if end_time_and_settings.len() > 1 {
-- 
2.43.0


From c26a8c99c43078fa1e1003a4aa63d4f6321ecd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 65/76] fix: wrapping a reversed range underflowed

---
 crates/ass-editor/commands/tag_commands/wrap.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/commands/tag_commands/wrap.rs b/crates/ass-editor/commands/tag_commands/wrap.rs
index 9ad050d..bbbb763 100644
--- a/crates/ass-editor/commands/tag_commands/wrap.rs
+++ b/crates/ass-editor/commands/tag_commands/wrap.rs
@@ -4,7 +4,7 @@
 //! closing override tag, auto-generating a closing tag when none is supplied.
 
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Position, Range, Result};
+use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -77,6 +77,14 @@ impl WrapTagCommand {
 
 impl EditorCommand for WrapTagCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
+        if self.range.end < self.range.start {
+            return Err(EditorError::InvalidRange {
+                start: self.range.start.offset,
+                end: self.range.end.offset,
+                length: document.len_bytes(),
+            });
+        }
+
         let closing_tag = self.get_closing_tag();
 
         // Insert closing tag first (so positions don't shift)
-- 
2.43.0


From f49b97a31e7178389b17db51eba5cd398af31818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 66/76] fix: karaoke pattern without durations no longer
 divides by zero

---
 crates/ass-editor/commands/karaoke_commands/apply_impl.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
index dcf47b5..3828954 100644
--- a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
@@ -166,7 +166,11 @@ impl ApplyKaraokeCommand {
             if i > 0 {
                 result.push(' ');
             }
-            let duration = durations.get(i % durations.len()).copied().unwrap_or(50);
+            let duration = i
+                .checked_rem(durations.len())
+                .and_then(|at| durations.get(at))
+                .copied()
+                .unwrap_or(50);
             result.push_str(&format!("{{\\{tag}{duration}}}{syllable}"));
         }
 
-- 
2.43.0


From f635e0afa5394f270202c3e890045de13dd55ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:56 +0000
Subject: [PATCH 67/76] fix: a \fade tag with times out of order panicked

---
 crates/ass-renderer/src/pipeline/tag_processor/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
index a544251..76d19eb 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
@@ -174,8 +174,8 @@ pub fn parse_fade_args(args: &str) -> Option<FadeData> {
                 time_start: t1,
                 time_end: t4,
                 alpha_middle: Some(alpha2),
-                time_fade_in: Some(t2 - t1),
-                time_fade_out: Some(t4 - t3),
+                time_fade_in: Some(t2.saturating_sub(t1)),
+                time_fade_out: Some(t4.saturating_sub(t3)),
             });
         }
     }
-- 
2.43.0


From b93f0ceac8be0a023a26751b80b82dbeb512163d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:56 +0000
Subject: [PATCH 68/76] fix: a digit tag followed by a multi-byte character
 panicked the renderer

---
 crates/ass-renderer/src/pipeline/text_segmenter/split.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
index f231f1f..c162a83 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
@@ -62,11 +62,7 @@ pub(super) fn extract_tag_name_and_args(part: &str) -> (&str, &str) {
         // letter before the `&H`, very common in real scripts — 6500+ times in
         // the benchmark) still resolves to `1c` rather than an unknown `1cH`;
         // parse_color / parse_alpha tolerate the leftover prefix.
-        if part.len() >= 2 {
-            (&part[..2], &part[2..])
-        } else {
-            (part, "")
-        }
+        part.split_at_checked(2).unwrap_or((part, ""))
     } else if let Some(idx) = part.find(|c: char| !c.is_ascii_alphabetic()) {
         (&part[..idx], &part[idx..])
     } else {
-- 
2.43.0


From 2f259eb95ee6f7a68bf93d9229c4b306a95900a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:09 +0000
Subject: [PATCH 69/76] fix: tag times far beyond the event overflowed the
 renderer

---
 crates/ass-renderer/src/pipeline/build/animation.rs   |  2 +-
 crates/ass-renderer/src/pipeline/build/drawing.rs     |  5 ++++-
 crates/ass-renderer/src/pipeline/build/position.rs    |  5 ++++-
 crates/ass-renderer/src/pipeline/build/text/colors.rs |  8 ++++----
 crates/ass-renderer/src/pipeline/build/text/mod.rs    | 11 +++++++----
 5 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/animation.rs b/crates/ass-renderer/src/pipeline/build/animation.rs
index 932335d..9a788ca 100644
--- a/crates/ass-renderer/src/pipeline/build/animation.rs
+++ b/crates/ass-renderer/src/pipeline/build/animation.rs
@@ -27,7 +27,7 @@ impl super::SoftwarePipeline {
 
             // Calculate time relative to event start (convert to milliseconds for animation)
             let relative_time_ms = if current_time_cs >= event_start_cs {
-                (current_time_cs - event_start_cs) * 10 // Convert centiseconds to milliseconds
+                (current_time_cs - event_start_cs).saturating_mul(10) // Convert centiseconds to milliseconds
             } else {
                 0
             };
diff --git a/crates/ass-renderer/src/pipeline/build/drawing.rs b/crates/ass-renderer/src/pipeline/build/drawing.rs
index f1e2184..d5cda62 100644
--- a/crates/ass-renderer/src/pipeline/build/drawing.rs
+++ b/crates/ass-renderer/src/pipeline/build/drawing.rs
@@ -88,7 +88,10 @@ impl super::SoftwarePipeline {
                 let (move_start_cs, move_end_cs) = if t1 == 0 && t2 == 0 {
                     (event_start_cs, event_end_cs)
                 } else {
-                    (event_start_cs + t1, event_start_cs + t2)
+                    (
+                        event_start_cs.saturating_add(t1),
+                        event_start_cs.saturating_add(t2),
+                    )
                 };
 
                 let progress = calculate_move_progress(time_cs, move_start_cs, move_end_cs);
diff --git a/crates/ass-renderer/src/pipeline/build/position.rs b/crates/ass-renderer/src/pipeline/build/position.rs
index 5525867..0643d57 100644
--- a/crates/ass-renderer/src/pipeline/build/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/position.rs
@@ -142,7 +142,10 @@ impl super::SoftwarePipeline {
             let (move_start_cs, move_end_cs) = if t1 == 0 && t2 == 0 {
                 (event_start_cs, event_end_cs)
             } else {
-                (event_start_cs + t1, event_start_cs + t2)
+                (
+                    event_start_cs.saturating_add(t1),
+                    event_start_cs.saturating_add(t2),
+                )
             };
 
             let progress = calculate_move_progress(time_cs, move_start_cs, move_end_cs);
diff --git a/crates/ass-renderer/src/pipeline/build/text/colors.rs b/crates/ass-renderer/src/pipeline/build/text/colors.rs
index d21ca1e..7ee0d8e 100644
--- a/crates/ass-renderer/src/pipeline/build/text/colors.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/colors.rs
@@ -110,9 +110,9 @@ pub(super) fn resolve_run_colors(
                 alpha_mid as f32,
                 fade.alpha_end as f32,
             );
-            let t1 = event_start + fade.time_start;
-            let t2 = t1 + fade.time_fade_in.unwrap_or(0);
-            let t4 = event_start + fade.time_end;
+            let t1 = event_start.saturating_add(fade.time_start);
+            let t2 = t1.saturating_add(fade.time_fade_in.unwrap_or(0));
+            let t4 = event_start.saturating_add(fade.time_end);
             let t3 = t4.saturating_sub(fade.time_fade_out.unwrap_or(0));
             let ass_alpha = if time_cs <= t1 {
                 a1
@@ -129,7 +129,7 @@ pub(super) fn resolve_run_colors(
             255.0 - ass_alpha
         } else {
             // Simple fade - times are durations
-            let fade_in_end = event_start + fade.time_start;
+            let fade_in_end = event_start.saturating_add(fade.time_start);
             let fade_out_start = event_end.saturating_sub(fade.time_end);
 
             if time_cs < fade_in_end {
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index da01eb8..f630bbe 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -275,9 +275,11 @@ impl super::SoftwarePipeline {
                 // Handle karaoke - track per-syllable timing
                 if let Some(karaoke) = &tags.karaoke {
                     // Calculate progress for THIS syllable based on cumulative timing
-                    let syllable_start =
-                        event.start_time_cs().unwrap_or(0) + karaoke_accumulated_time;
-                    let syllable_end = syllable_start + karaoke.duration;
+                    let syllable_start = event
+                        .start_time_cs()
+                        .unwrap_or(0)
+                        .saturating_add(karaoke_accumulated_time);
+                    let syllable_end = syllable_start.saturating_add(karaoke.duration);
 
                     let progress = if time_cs < syllable_start {
                         0.0 // Not yet started
@@ -307,7 +309,8 @@ impl super::SoftwarePipeline {
                     });
 
                     // Accumulate time for next syllable
-                    karaoke_accumulated_time += karaoke.duration;
+                    karaoke_accumulated_time =
+                        karaoke_accumulated_time.saturating_add(karaoke.duration);
                 }
 
                 // Advance the pen to the end of this segment so the next run on the
-- 
2.43.0


From 4ebcfbc2a147fcb4b1e445a14b2f01e6b46419ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 70/76] fix: the animation controller panicked on times and
 modifiers out of order

---
 crates/ass-renderer/src/animation/controller.rs | 9 ++++-----
 crates/ass-renderer/src/animation/value.rs      | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/ass-renderer/src/animation/controller.rs b/crates/ass-renderer/src/animation/controller.rs
index 5190bb9..8fed12a 100644
--- a/crates/ass-renderer/src/animation/controller.rs
+++ b/crates/ass-renderer/src/animation/controller.rs
@@ -39,8 +39,8 @@ impl AnimationController {
         event_end: u32,
     ) -> Result<(), RenderError> {
         let timing = AnimationTiming::new(
-            event_start + tag.t1.unwrap_or(0),
-            event_start + tag.t2.unwrap_or(event_end - event_start),
+            event_start.saturating_add(tag.t1.unwrap_or(0)),
+            event_start.saturating_add(tag.t2.unwrap_or(event_end.saturating_sub(event_start))),
             tag.accel.unwrap_or(1.0),
         );
 
@@ -193,9 +193,8 @@ impl Default for AnimationController {
 /// Extract values from a modifier string
 fn extract_values(modifier: &str) -> Option<Vec<&str>> {
     // Find content between parentheses
-    let start = modifier.find('(')?;
-    let end = modifier.find(')')?;
-    let content = &modifier[start + 1..end];
+    let (_, rest) = modifier.split_once('(')?;
+    let (content, _) = rest.split_once(')')?;
     Some(content.split(',').collect())
 }
 
diff --git a/crates/ass-renderer/src/animation/value.rs b/crates/ass-renderer/src/animation/value.rs
index 98febc4..4e93b56 100644
--- a/crates/ass-renderer/src/animation/value.rs
+++ b/crates/ass-renderer/src/animation/value.rs
@@ -47,7 +47,7 @@ impl AnimatedValue {
 
         match self {
             Self::Integer { from, to } => {
-                let value = *from + ((to - from) as f32 * t) as i32;
+                let value = from.saturating_add((to.saturating_sub(*from) as f32 * t) as i32);
                 AnimatedResult::Integer(value)
             }
             Self::Float { from, to } => {
-- 
2.43.0


From c4869160504417e8303eff0740a880ba20fd291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 71/76] fix: the event selector overflowed on times beyond i32

---
 crates/ass-renderer/src/renderer/event_selector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index 20d2979..ba3f740 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -158,7 +158,7 @@ impl EventSelector {
             || self.has_animated_events(&active_events, time_cs)
             || self
                 .last_timestamp
-                .is_none_or(|last| (time_cs as i32 - last as i32).abs() > 100);
+                .is_none_or(|last| time_cs.abs_diff(last) > 100);
 
         // Update state
         self.previous_active = current_active;
-- 
2.43.0


From 84a1d23a7ea07f15d30d8de84cc3404a8c9d86df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 72/76] fix: region arithmetic overflowed on regions beyond u32

---
 crates/ass-renderer/src/pipeline/mod.rs        |  7 ++++++-
 .../src/renderer/event_selector.rs             | 18 ++++++++++++------
 crates/ass-renderer/src/utils/regions.rs       | 12 +++++++++---
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/mod.rs b/crates/ass-renderer/src/pipeline/mod.rs
index aec0dd1..c467f31 100644
--- a/crates/ass-renderer/src/pipeline/mod.rs
+++ b/crates/ass-renderer/src/pipeline/mod.rs
@@ -83,7 +83,12 @@ impl IntermediateLayer {
     pub fn intersects_region(&self, region: &DirtyRegion) -> bool {
         match self {
             Self::Raster(data) => {
-                let layer_bounds = (data.x, data.y, data.x + data.width, data.y + data.height);
+                let layer_bounds = (
+                    data.x,
+                    data.y,
+                    data.x.saturating_add(data.width),
+                    data.y.saturating_add(data.height),
+                );
                 region.intersects(layer_bounds)
             }
             Self::Vector(data) => {
diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index ba3f740..0116e78 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -222,8 +222,14 @@ impl EventSelector {
                 // Expand existing region
                 let min_x = region.x.min(x);
                 let min_y = region.y.min(y);
-                let max_x = (region.x + region.width).max(x + width);
-                let max_y = (region.y + region.height).max(y + height);
+                let max_x = region
+                    .x
+                    .saturating_add(region.width)
+                    .max(x.saturating_add(width));
+                let max_y = region
+                    .y
+                    .saturating_add(region.height)
+                    .max(y.saturating_add(height));
                 region.x = min_x;
                 region.y = min_y;
                 region.width = max_x - min_x;
@@ -242,10 +248,10 @@ impl EventSelector {
 
     /// Check if two regions overlap
     fn regions_overlap(region: &DirtyRegion, x: u32, y: u32, width: u32, height: u32) -> bool {
-        !(x >= region.x + region.width
-            || x + width <= region.x
-            || y >= region.y + region.height
-            || y + height <= region.y)
+        !(x >= region.x.saturating_add(region.width)
+            || x.saturating_add(width) <= region.x
+            || y >= region.y.saturating_add(region.height)
+            || y.saturating_add(height) <= region.y)
     }
 
     /// Get current dirty regions
diff --git a/crates/ass-renderer/src/utils/regions.rs b/crates/ass-renderer/src/utils/regions.rs
index f14ee8a..41cd3ff 100644
--- a/crates/ass-renderer/src/utils/regions.rs
+++ b/crates/ass-renderer/src/utils/regions.rs
@@ -49,8 +49,14 @@ impl DirtyRegion {
     pub fn merge(&self, other: &Self) -> Self {
         let x1 = self.x.min(other.x);
         let y1 = self.y.min(other.y);
-        let x2 = (self.x + self.width).max(other.x + other.width);
-        let y2 = (self.y + self.height).max(other.y + other.height);
+        let x2 = self
+            .x
+            .saturating_add(self.width)
+            .max(other.x.saturating_add(other.width));
+        let y2 = self
+            .y
+            .saturating_add(self.height)
+            .max(other.y.saturating_add(other.height));
 
         Self {
             x: x1,
@@ -62,7 +68,7 @@ impl DirtyRegion {
 
     /// Check if region contains point
     pub fn contains_point(&self, x: u32, y: u32) -> bool {
-        x >= self.x && x < self.x + self.width && y >= self.y && y < self.y + self.height
+        x >= self.x && x - self.x < self.width && y >= self.y && y - self.y < self.height
     }
 
     /// Get area of region
-- 
2.43.0


From 235610b1305cf0dc1343226dbfdb10a482b4967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 73/76] fix: incremental compositing redraws the whole frame
 instead of blending over the previous one

---
 .../ass-renderer/src/backends/software/mod.rs | 32 +++++--------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/mod.rs b/crates/ass-renderer/src/backends/software/mod.rs
index 96274b5..05cebeb 100644
--- a/crates/ass-renderer/src/backends/software/mod.rs
+++ b/crates/ass-renderer/src/backends/software/mod.rs
@@ -205,32 +205,16 @@ impl RenderBackend for SoftwareBackend {
         previous_frame: &[u8],
         context: &RenderContext,
     ) -> Result<Vec<u8>, RenderError> {
-        if self.pixmap.width() != context.width() || self.pixmap.height() != context.height() {
-            self.resize(context.width(), context.height())?;
-        }
-
-        // Seed from the previous frame, then redraw only the dirty regions.
-        if previous_frame.len() == self.pixmap.data().len() {
-            self.pixmap.data_mut().copy_from_slice(previous_frame);
-        } else {
-            self.pixmap.fill(tiny_skia::Color::TRANSPARENT);
-        }
-
-        // Only redraw dirty regions
-        for region in dirty_regions {
-            // TODO: Create clip mask for dirty region
-            // tiny_skia doesn't expose ClipMask publicly
-            let _ = region; // TODO: Apply clipping
-
-            // Composite layers within this region
-            for layer in layers {
-                if layer.intersects_region(region) {
-                    self.composite_layer(layer, context)?;
-                }
-            }
+        // Nothing to redraw: the previous pixels stand.
+        let frame_len = context.width() as usize * context.height() as usize * 4;
+        if dirty_regions.is_empty() && previous_frame.len() == frame_len {
+            return Ok(previous_frame.to_vec());
         }
 
-        Ok(self.pixmap.data().to_vec())
+        // tiny_skia doesn't expose ClipMask publicly, so a redraw can't be confined
+        // to the dirty regions: blending layers over the previous pixels would keep
+        // whatever has moved or ended. Redraw the whole frame instead.
+        self.composite_layers(layers, context)
     }
 
     fn supports_feature(&self, feature: BackendFeature) -> bool {
-- 
2.43.0


From dae1998cf1283417156ecb6627e6413734b16d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 74/76] fix: incremental rendering redraws when an event has
 ended or is animated

---
 crates/ass-renderer/src/renderer/mod.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/ass-renderer/src/renderer/mod.rs b/crates/ass-renderer/src/renderer/mod.rs
index 086588c..b969aaa 100644
--- a/crates/ass-renderer/src/renderer/mod.rs
+++ b/crates/ass-renderer/src/renderer/mod.rs
@@ -203,9 +203,26 @@ impl Renderer {
     ) -> Result<Frame, RenderError> {
         let active = self.event_selector.select_active(script, time_cs)?;
         let events = active.events;
-        let dirty_regions =
-            self.pipeline
-                .compute_dirty_regions(&events, time_cs, previous_frame.timestamp())?;
+
+        // An event that has ended since the previous frame has to disappear, so every
+        // event of the script is considered, not only the active ones.
+        let all_events: Vec<_> = script
+            .sections()
+            .iter()
+            .filter_map(|section| match section {
+                ass_core::parser::Section::Events(events) => Some(events),
+                _ => None,
+            })
+            .flatten()
+            .collect();
+        let mut dirty_regions = self.pipeline.compute_dirty_regions(
+            &all_events,
+            time_cs,
+            previous_frame.timestamp(),
+        )?;
+        if events.iter().any(|e| Self::event_is_animated(e.text)) {
+            dirty_regions.push(crate::utils::DirtyRegion::full_screen());
+        }
 
         if dirty_regions.is_empty() {
             return Ok(previous_frame.clone());
-- 
2.43.0


From 93ad9825b229cf928c2944eba13370708a517425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:21 +0000
Subject: [PATCH 75/76] fix: every search for the styles header knows all three
 spellings

---
 .../ass-core/utils/utf8/encoding/detection.rs |  2 +
 .../commands/style_commands/create.rs         |  1 +
 .../commands/style_commands/edit.rs           |  1 +
 .../ass-editor/core/document/delta_apply.rs   |  2 +-
 .../core/document/delta_sections.rs           | 76 +++++--------------
 .../ass-editor/core/document/section_lines.rs |  1 +
 6 files changed, 24 insertions(+), 59 deletions(-)

diff --git a/crates/ass-core/utils/utf8/encoding/detection.rs b/crates/ass-core/utils/utf8/encoding/detection.rs
index 6129498..d148a0a 100644
--- a/crates/ass-core/utils/utf8/encoding/detection.rs
+++ b/crates/ass-core/utils/utf8/encoding/detection.rs
@@ -75,6 +75,8 @@ pub fn is_likely_ass_content(text: &str) -> bool {
     // Check for ASS section headers
     if text.contains("[Script Info]")
         || text.contains("[V4+ Styles]")
+        || text.contains("[V4 Styles]")
+        || text.contains("[V4++ Styles]")
         || text.contains("[Events]")
         || text.contains("[Fonts]")
         || text.contains("[Graphics]")
diff --git a/crates/ass-editor/commands/style_commands/create.rs b/crates/ass-editor/commands/style_commands/create.rs
index bdcf344..57a1ea2 100644
--- a/crates/ass-editor/commands/style_commands/create.rs
+++ b/crates/ass-editor/commands/style_commands/create.rs
@@ -47,6 +47,7 @@ impl EditorCommand for CreateStyleCommand {
         let styles_section_pos = content
             .find("[V4+ Styles]")
             .or_else(|| content.find("[V4 Styles]"))
+            .or_else(|| content.find("[V4++ Styles]"))
             .or_else(|| content.find("[Styles]"));
 
         if let Some(section_start) = styles_section_pos {
diff --git a/crates/ass-editor/commands/style_commands/edit.rs b/crates/ass-editor/commands/style_commands/edit.rs
index 801ccab..e782d6c 100644
--- a/crates/ass-editor/commands/style_commands/edit.rs
+++ b/crates/ass-editor/commands/style_commands/edit.rs
@@ -108,6 +108,7 @@ impl EditorCommand for EditStyleCommand {
             let styles_section_start = content[..line_start]
                 .rfind("[V4+ Styles]")
                 .or_else(|| content[..line_start].rfind("[V4 Styles]"))
+                .or_else(|| content[..line_start].rfind("[V4++ Styles]"))
                 .or_else(|| content[..line_start].rfind("[Styles]"))
                 .ok_or_else(|| EditorError::command_failed("Could not find styles section"))?;
 
diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index fc06b7b..d7b16e0 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -98,7 +98,7 @@ impl EditorDocument {
     }
 
     /// Find the start offset of a section in the document
-    fn find_section_start(&self, section: &Section) -> Result<usize> {
+    pub(super) fn find_section_start(&self, section: &Section) -> Result<usize> {
         // Get the section headers this kind of section can have
         let headers: &[&str] = match section {
             Section::ScriptInfo(_) => &["[Script Info]"],
diff --git a/crates/ass-editor/core/document/delta_sections.rs b/crates/ass-editor/core/document/delta_sections.rs
index 4aa6c45..e5a598e 100644
--- a/crates/ass-editor/core/document/delta_sections.rs
+++ b/crates/ass-editor/core/document/delta_sections.rs
@@ -5,9 +5,8 @@
 //! submodule can reverse delta operations.
 
 use super::EditorDocument;
-use crate::core::errors::{EditorError, Result};
+use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
-use ass_core::parser::ast::Section;
 
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
@@ -44,21 +43,7 @@ impl EditorDocument {
         let insert_pos = self.parse_script_with(|script| -> Result<usize> {
             if let Some(section) = script.sections().get(index) {
                 // Find the start of this section to insert before it
-                let header = match section {
-                    Section::ScriptInfo(_) => "[Script Info]",
-                    Section::Styles(_) => "[V4+ Styles]",
-                    Section::Events(_) => "[Events]",
-                    Section::Fonts(_) => "[Fonts]",
-                    Section::Graphics(_) => "[Graphics]",
-                };
-
-                if let Some(pos) = content.find(header) {
-                    Ok(pos)
-                } else {
-                    Err(EditorError::SectionNotFound {
-                        section: header.to_string(),
-                    })
-                }
+                self.find_section_start(section)
             } else {
                 // Append to end if index is out of bounds
                 Ok(content.len())
@@ -88,23 +73,15 @@ impl EditorDocument {
         // Parse to find the section and get its boundaries
         // Get the section to replace
         let content = self.text();
-        let section_info: Result<Option<&str>> = self.parse_script_with(|script| {
-            if let Some(section) = script.sections().get(index) {
-                let header = match section {
-                    Section::ScriptInfo(_) => "[Script Info]",
-                    Section::Styles(_) => "[V4+ Styles]",
-                    Section::Events(_) => "[Events]",
-                    Section::Fonts(_) => "[Fonts]",
-                    Section::Graphics(_) => "[Graphics]",
-                };
-                Ok(Some(header))
-            } else {
-                Ok(None)
-            }
-        })?;
+        let section_start = self.parse_script_with(|script| {
+            script
+                .sections()
+                .get(index)
+                .map(|section| self.find_section_start(section))
+                .transpose()
+        })??;
 
-        if let Some(header) = section_info? {
-            let start = self.find_section_start_by_header(&content, header)?;
+        if let Some(start) = section_start {
             let end = self.find_section_end_from_start(&content, start)?;
 
             self.replace_raw(
@@ -121,23 +98,15 @@ impl EditorDocument {
         // Parse to find the last section and get its boundaries
         // Get the last section
         let content = self.text();
-        let section_info: Result<Option<&str>> = self.parse_script_with(|script| {
-            if let Some(section) = script.sections().last() {
-                let header = match section {
-                    Section::ScriptInfo(_) => "[Script Info]",
-                    Section::Styles(_) => "[V4+ Styles]",
-                    Section::Events(_) => "[Events]",
-                    Section::Fonts(_) => "[Fonts]",
-                    Section::Graphics(_) => "[Graphics]",
-                };
-                Ok(Some(header))
-            } else {
-                Ok(None)
-            }
-        })?;
+        let section_start = self.parse_script_with(|script| {
+            script
+                .sections()
+                .last()
+                .map(|section| self.find_section_start(section))
+                .transpose()
+        })??;
 
-        if let Some(header) = section_info? {
-            let start = self.find_section_start_by_header(&content, header)?;
+        if let Some(start) = section_start {
             let end = self.find_section_end_from_start(&content, start)?;
 
             self.delete_raw(Range::new(Position::new(start), Position::new(end)))?;
@@ -146,15 +115,6 @@ impl EditorDocument {
         Ok(())
     }
 
-    /// Find section start by header
-    fn find_section_start_by_header(&self, content: &str, header: &str) -> Result<usize> {
-        content
-            .find(header)
-            .ok_or_else(|| EditorError::SectionNotFound {
-                section: header.to_string(),
-            })
-    }
-
     /// Find section end from start position
     fn find_section_end_from_start(&self, content: &str, start: usize) -> Result<usize> {
         let section_headers = [
diff --git a/crates/ass-editor/core/document/section_lines.rs b/crates/ass-editor/core/document/section_lines.rs
index e1d7008..0c451ea 100644
--- a/crates/ass-editor/core/document/section_lines.rs
+++ b/crates/ass-editor/core/document/section_lines.rs
@@ -51,6 +51,7 @@ impl EditorDocument {
         if let Some(styles_pos) = content
             .find("[V4+ Styles]")
             .or_else(|| content.find("[V4 Styles]"))
+            .or_else(|| content.find("[V4++ Styles]"))
         {
             // Find end of format line and add after it
             let format_start = content[styles_pos..].find("Format:").unwrap_or(0) + styles_pos;
-- 
2.43.0


From 30c2019c70a6efc8ef288946ec945aac231f599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:21 +0000
Subject: [PATCH 76/76] fix: event commands read and write events in the
 columns of the section's Format line

---
 .../commands/event_commands/effect_exec.rs    |  36 ++---
 .../commands/event_commands/helpers.rs        | 150 ++++++++++--------
 .../commands/event_commands/merge.rs          |  34 ++--
 .../commands/event_commands/split.rs          |  50 ++----
 .../commands/event_commands/timing.rs         |  37 ++---
 5 files changed, 143 insertions(+), 164 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/effect_exec.rs b/crates/ass-editor/commands/event_commands/effect_exec.rs
index 6fd3fa3..e3bdeb5 100644
--- a/crates/ass-editor/commands/event_commands/effect_exec.rs
+++ b/crates/ass-editor/commands/event_commands/effect_exec.rs
@@ -1,10 +1,10 @@
 //! `EditorCommand` implementation for `EventEffectCommand`.
 
 use super::effect::{EffectOperation, EventEffectCommand};
-use super::helpers::parse_event_line;
+use super::helpers::{event_columns, format_event_line, parse_event_line};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
+use ass_core::parser::ast::Event;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -20,6 +20,7 @@ impl EditorCommand for EventEffectCommand {
             .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
 
         let events_content = &content[events_start..];
+        let columns = event_columns(events_content);
         let format_line_end = events_content
             .find("Format:")
             .and_then(|format_pos| {
@@ -35,7 +36,7 @@ impl EditorCommand for EventEffectCommand {
         let mut total_range: Option<Range> = None;
 
         while event_start < content.len() {
-            let line_end = content[event_start..]
+            let mut line_end = content[event_start..]
                 .find('\n')
                 .map(|pos| event_start + pos)
                 .unwrap_or(content.len());
@@ -52,7 +53,7 @@ impl EditorCommand for EventEffectCommand {
 
                 if should_modify {
                     // Parse event line using helper function
-                    if let Ok(event) = parse_event_line(line) {
+                    if let Ok(event) = parse_event_line(line, &columns) {
                         let new_effect = match self.operation {
                             EffectOperation::Set => self.effect.clone(),
                             EffectOperation::Clear => String::new(),
@@ -73,31 +74,20 @@ impl EditorCommand for EventEffectCommand {
                         };
 
                         // Build new event line
-                        let event_type_str = match event.event_type {
-                            EventType::Dialogue => "Dialogue",
-                            EventType::Comment => "Comment",
-                            _ => "Dialogue", // Default fallback
-                        };
-                        let new_line = format!(
-                            "{}: {},{},{},{},{},{},{},{},{},{}",
-                            event_type_str,
-                            event.layer,
-                            event.start,
-                            event.end,
-                            event.style,
-                            event.name,
-                            event.margin_l,
-                            event.margin_r,
-                            event.margin_v,
-                            new_effect,
-                            event.text
+                        let new_line = format_event_line(
+                            &Event {
+                                effect: &new_effect,
+                                ..event.clone()
+                            },
+                            &columns,
                         );
 
                         let range = Range::new(Position::new(event_start), Position::new(line_end));
                         document.replace(range, &new_line)?;
 
-                        // Update content for next iteration
+                        // Update content and position for next iteration
                         content = document.text();
+                        line_end = event_start + new_line.len();
 
                         // Track overall range
                         let change_range = Range::new(
diff --git a/crates/ass-editor/commands/event_commands/helpers.rs b/crates/ass-editor/commands/event_commands/helpers.rs
index 0b0c7f1..7d0e824 100644
--- a/crates/ass-editor/commands/event_commands/helpers.rs
+++ b/crates/ass-editor/commands/event_commands/helpers.rs
@@ -7,11 +7,46 @@ use crate::core::EditorError;
 use ass_core::parser::ast::{Event, EventType, Span};
 
 #[cfg(not(feature = "std"))]
-use alloc::vec::Vec;
+use alloc::{
+    string::{String, ToString},
+    vec::Vec,
+};
+
+/// Columns named by the first `Format:` line of the events section
+pub(super) fn event_columns(events_content: &str) -> Vec<String> {
+    events_content
+        .find("Format:")
+        .and_then(|pos| events_content[pos + "Format:".len()..].lines().next())
+        .map(|line| line.split(',').map(|c| c.trim().to_string()).collect())
+        .unwrap_or_default()
+}
+
+/// Write an event as a line of a section with the given columns
+pub(super) fn format_event_line(event: &Event<'_>, columns: &[String]) -> String {
+    let columns: Vec<&str> = columns.iter().map(String::as_str).collect();
+    event.to_ass_string_with_format(&columns)
+}
+
+/// Position of the first comma that is not inside parentheses
+fn find_comma_outside_parens(text: &str) -> Option<usize> {
+    let mut paren_depth = 0;
+    for (i, ch) in text.char_indices() {
+        match ch {
+            '(' => paren_depth += 1,
+            ')' => paren_depth -= 1,
+            ',' if paren_depth == 0 => return Some(i),
+            _ => {}
+        }
+    }
+    None
+}
 
 /// Helper function to parse an ASS event line with proper comma handling
 /// Returns parsed Event struct or error if parsing fails
-pub(super) fn parse_event_line(line: &str) -> core::result::Result<Event<'_>, EditorError> {
+pub(super) fn parse_event_line<'a>(
+    line: &'a str,
+    columns: &[String],
+) -> core::result::Result<Event<'a>, EditorError> {
     // Extract event type
     let colon_pos = line
         .find(':')
@@ -25,75 +60,66 @@ pub(super) fn parse_event_line(line: &str) -> core::result::Result<Event<'_>, Ed
         _ => return Err(EditorError::command_failed("Unknown event type")),
     };
 
-    // Parse fields carefully - Effect field can contain commas, so we need special handling
-    // Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text
-    let parts: Vec<&str> = fields_part.splitn(10, ',').collect();
-    if parts.len() < 10 {
+    // Cut one value per column. The last column takes the rest of the line; commas
+    // inside parentheses belong to the Effect value.
+    let mut values = Vec::with_capacity(columns.len());
+    let mut rest = Some(fields_part);
+    for (i, column) in columns.iter().enumerate() {
+        let Some(current) = rest else { break };
+        let cut = if i + 1 == columns.len() {
+            None
+        } else if column.eq_ignore_ascii_case("Effect") {
+            find_comma_outside_parens(current)
+        } else {
+            current.find(',')
+        };
+        match cut {
+            Some(pos) => {
+                values.push(current[..pos].trim());
+                rest = Some(&current[pos + 1..]);
+            }
+            None => {
+                values.push(current.trim());
+                rest = None;
+            }
+        }
+    }
+    // An Effect whose parentheses never close takes the rest of the line, Text included
+    if values.len() < columns.len() && fields_part.split(',').count() < columns.len() {
         return Err(EditorError::command_failed(
             "Invalid event format: insufficient fields",
         ));
     }
 
-    // The issue is that parts[8] (Effect) and parts[9] (Text) might be incorrectly split
-    // if Effect contains commas. We need to rejoin them properly.
-
-    // First 8 fields are safe (no commas expected)
-    let layer = parts[0].trim();
-    let start = parts[1].trim();
-    let end = parts[2].trim();
-    let style = parts[3].trim();
-    let name = parts[4].trim();
-    let margin_l = parts[5].trim();
-    let margin_r = parts[6].trim();
-    let margin_v = parts[7].trim();
-
-    // For Effect and Text, we need to find the correct comma that separates them
-    // Effect can contain commas, but Text is the final field
-
-    // Calculate where effect+text starts in the original string
-    let prefix_len = parts[0..8].iter().map(|s| s.len()).sum::<usize>() + 8; // +8 for commas
-    let remaining = &fields_part[prefix_len..];
-
-    // Find the first comma that's not inside parentheses: what follows it is the text,
-    // commas included
-    let mut split_point = None;
-    let mut paren_depth = 0;
-
-    for (i, ch) in remaining.char_indices() {
-        match ch {
-            '(' => paren_depth += 1,
-            ')' => paren_depth -= 1,
-            ',' if paren_depth == 0 => {
-                split_point = Some(i);
-                break;
-            }
-            _ => {}
-        }
-    }
-
-    let (effect, text) = if let Some(split) = split_point {
-        let effect_part = remaining[..split].trim();
-        let text_part = remaining[split + 1..].trim();
-        (effect_part, text_part)
-    } else {
-        // No comma found outside parentheses, treat entire remaining as effect
-        (remaining.trim(), "")
+    let column = |name: &str| {
+        columns
+            .iter()
+            .position(|column| column.eq_ignore_ascii_case(name))
+    };
+    let value = |name: &str| {
+        column(name)
+            .and_then(|idx| values.get(idx))
+            .copied()
+            .unwrap_or("")
     };
 
     Ok(Event {
         event_type,
-        layer,
-        start,
-        end,
-        style,
-        name,
-        margin_l,
-        margin_r,
-        margin_v,
-        margin_t: None,
-        margin_b: None,
-        effect,
-        text,
+        layer: value("Layer"),
+        start: value("Start"),
+        end: value("End"),
+        style: value("Style"),
+        name: match value("Name") {
+            "" => value("Actor"),
+            name => name,
+        },
+        margin_l: value("MarginL"),
+        margin_r: value("MarginR"),
+        margin_v: value("MarginV"),
+        margin_t: column("MarginT").map(|_| value("MarginT")),
+        margin_b: column("MarginB").map(|_| value("MarginB")),
+        effect: value("Effect"),
+        text: value("Text"),
         span: Span::new(0, line.len(), 1, 1), // Dummy span
     })
 }
diff --git a/crates/ass-editor/commands/event_commands/merge.rs b/crates/ass-editor/commands/event_commands/merge.rs
index 07d6000..6393ade 100644
--- a/crates/ass-editor/commands/event_commands/merge.rs
+++ b/crates/ass-editor/commands/event_commands/merge.rs
@@ -1,9 +1,9 @@
 //! Command to merge two consecutive events into one.
 
-use super::helpers::parse_event_line;
+use super::helpers::{event_columns, format_event_line, parse_event_line};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
+use ass_core::parser::ast::Event;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -61,6 +61,7 @@ impl EditorCommand for MergeEventsCommand {
 
         // Skip to first event after format line
         let events_content = &content[events_start..];
+        let columns = event_columns(events_content);
         let format_line_end = events_content
             .find("Format:")
             .and_then(|format_pos| {
@@ -111,8 +112,8 @@ impl EditorCommand for MergeEventsCommand {
         let first_event_line = &events[0].3;
         let second_event_line = &events[1].3;
 
-        let first_event = parse_event_line(first_event_line)?;
-        let second_event = parse_event_line(second_event_line)?;
+        let first_event = parse_event_line(first_event_line, &columns)?;
+        let second_event = parse_event_line(second_event_line, &columns)?;
 
         // Use first event's properties, second event's end time, merged text
         let merged_text = format!(
@@ -121,24 +122,13 @@ impl EditorCommand for MergeEventsCommand {
         );
 
         // Create merged event
-        let event_type_str = match first_event.event_type {
-            EventType::Dialogue => "Dialogue",
-            EventType::Comment => "Comment",
-            _ => "Dialogue", // Default fallback
-        };
-        let merged_event = format!(
-            "{}: {},{},{},{},{},{},{},{},{},{}",
-            event_type_str,
-            first_event.layer,
-            first_event.start,
-            second_event.end,
-            first_event.style,
-            first_event.name,
-            first_event.margin_l,
-            first_event.margin_r,
-            first_event.margin_v,
-            first_event.effect,
-            merged_text
+        let merged_event = format_event_line(
+            &Event {
+                end: second_event.end,
+                text: &merged_text,
+                ..first_event.clone()
+            },
+            &columns,
         );
 
         // Replace both events with the merged one
diff --git a/crates/ass-editor/commands/event_commands/split.rs b/crates/ass-editor/commands/event_commands/split.rs
index 3008e27..e438d5f 100644
--- a/crates/ass-editor/commands/event_commands/split.rs
+++ b/crates/ass-editor/commands/event_commands/split.rs
@@ -1,9 +1,9 @@
 //! Command to split a single event into two at a specific time.
 
-use super::helpers::parse_event_line;
+use super::helpers::{event_columns, format_event_line, parse_event_line};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
+use ass_core::parser::ast::Event;
 use ass_core::utils::parse_ass_time;
 
 #[cfg(not(feature = "std"))]
@@ -50,6 +50,7 @@ impl EditorCommand for SplitEventCommand {
 
         // Skip to first event after format line
         let events_content = &content[events_start..];
+        let columns = event_columns(events_content);
         let format_line_end = events_content
             .find("Format:")
             .and_then(|format_pos| {
@@ -79,7 +80,7 @@ impl EditorCommand for SplitEventCommand {
             if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
                 if current_index == self.event_index {
                     // Found the event to split - parse using ass-core's parser
-                    let event = parse_event_line(line)?;
+                    let event = parse_event_line(line, &columns)?;
 
                     // Validate split time is within event bounds
                     let start_time_cs = event
@@ -96,39 +97,20 @@ impl EditorCommand for SplitEventCommand {
                     }
 
                     // Create two new events
-                    let event_type_str = match event.event_type {
-                        EventType::Dialogue => "Dialogue",
-                        EventType::Comment => "Comment",
-                        _ => "Dialogue", // Default fallback
-                    };
-                    let first_event = format!(
-                        "{}: {},{},{},{},{},{},{},{},{},{}",
-                        event_type_str,
-                        event.layer,
-                        event.start,
-                        self.split_time,
-                        event.style,
-                        event.name,
-                        event.margin_l,
-                        event.margin_r,
-                        event.margin_v,
-                        event.effect,
-                        event.text
+                    let first_event = format_event_line(
+                        &Event {
+                            end: &self.split_time,
+                            ..event.clone()
+                        },
+                        &columns,
                     );
 
-                    let second_event = format!(
-                        "{}: {},{},{},{},{},{},{},{},{},{}",
-                        event_type_str,
-                        event.layer,
-                        self.split_time,
-                        event.end,
-                        event.style,
-                        event.name,
-                        event.margin_l,
-                        event.margin_r,
-                        event.margin_v,
-                        event.effect,
-                        event.text
+                    let second_event = format_event_line(
+                        &Event {
+                            start: &self.split_time,
+                            ..event.clone()
+                        },
+                        &columns,
                     );
 
                     // Replace the original event with the two new events
diff --git a/crates/ass-editor/commands/event_commands/timing.rs b/crates/ass-editor/commands/event_commands/timing.rs
index 84e5c9b..eaed14f 100644
--- a/crates/ass-editor/commands/event_commands/timing.rs
+++ b/crates/ass-editor/commands/event_commands/timing.rs
@@ -1,9 +1,9 @@
 //! Command to adjust event timing by shifting start/end times.
 
-use super::helpers::parse_event_line;
+use super::helpers::{event_columns, format_event_line, parse_event_line};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
+use ass_core::parser::ast::Event;
 use ass_core::utils::format_ass_time;
 
 #[cfg(not(feature = "std"))]
@@ -76,6 +76,7 @@ impl EditorCommand for TimingAdjustCommand {
             .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
 
         let events_content = &content[events_start..];
+        let columns = event_columns(events_content);
         let format_line_end = events_content
             .find("Format:")
             .and_then(|format_pos| {
@@ -91,7 +92,7 @@ impl EditorCommand for TimingAdjustCommand {
         let mut total_range: Option<Range> = None;
 
         while event_start < content.len() {
-            let line_end = content[event_start..]
+            let mut line_end = content[event_start..]
                 .find('\n')
                 .map(|pos| event_start + pos)
                 .unwrap_or(content.len());
@@ -108,7 +109,7 @@ impl EditorCommand for TimingAdjustCommand {
 
                 if should_adjust {
                     // Parse event line using ass-core's parser
-                    if let Ok(event) = parse_event_line(line) {
+                    if let Ok(event) = parse_event_line(line, &columns) {
                         // Parse current times using Event methods
                         if let (Ok(start_cs), Ok(end_cs)) =
                             (event.start_time_cs(), event.end_time_cs())
@@ -124,24 +125,13 @@ impl EditorCommand for TimingAdjustCommand {
                             let new_end_time = format_ass_time(final_end_cs);
 
                             // Build new event line
-                            let event_type_str = match event.event_type {
-                                EventType::Dialogue => "Dialogue",
-                                EventType::Comment => "Comment",
-                                _ => "Dialogue", // Default fallback
-                            };
-                            let new_line = format!(
-                                "{}: {},{},{},{},{},{},{},{},{},{}",
-                                event_type_str,
-                                event.layer,
-                                new_start_time,
-                                new_end_time,
-                                event.style,
-                                event.name,
-                                event.margin_l,
-                                event.margin_r,
-                                event.margin_v,
-                                event.effect,
-                                event.text
+                            let new_line = format_event_line(
+                                &Event {
+                                    start: &new_start_time,
+                                    end: &new_end_time,
+                                    ..event.clone()
+                                },
+                                &columns,
                             );
 
                             // Replace the line
@@ -149,8 +139,9 @@ impl EditorCommand for TimingAdjustCommand {
                                 Range::new(Position::new(event_start), Position::new(line_end));
                             document.replace(range, &new_line)?;
 
-                            // Update content for next iteration
+                            // Update content and position for next iteration
                             content = document.text();
+                            line_end = event_start + new_line.len();
 
                             // Track overall range
                             let change_range = Range::new(
-- 
2.43.0

