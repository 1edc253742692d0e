From eaec407fa206db8abdb163c47423ac7cc5ded26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 01/29] fix: do not insert line breaks into mixed content when
 serialising

---
 src/serialiser.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 128c497..574b530 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -208,14 +208,16 @@ impl Document {
         let dec_is_default: Vec<bool> = self.declarationstore.default_mask();
 
         //Select children
-        let mut stack: Vec<(BytesEnd,ElementType,String)> = vec![];
+        //the last item on the stack indicates whether the element holds mixed content (text), in
+        //which case line breaks would alter its content
+        let mut stack: Vec<(BytesEnd,bool,String)> = vec![];
         let mut previous_depth = 0;
         let mut last_start: String = "<ROOT>".to_string();
         for item in self.select_data_by_key(root_key,Selector::all_data(),Recursion::Always, true, false) {
             while item.depth < previous_depth {
-                if let Some((end,elementtype,_tagstring)) = stack.pop() {
+                if let Some((end,_mixed,_tagstring)) = stack.pop() {
                     writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
-                    if !ElementGroup::TextMarkup.contains(elementtype) {
+                    if !stack.last().map_or(false, |(_,mixed,_)| *mixed) {
                         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                     }
                     //eprintln!("[DEBUG] <-- Popped end tag {} ({})", tagstring.as_str(), item.depth);
@@ -275,9 +277,15 @@ impl Document {
                             let end = BytesEnd::owned(tag.to_vec());
                             //eprintln!("[DEBUG] --> Pushed start tag {} ({})", tagstring.as_str(), item.depth);
                             last_start = tagstring.clone();
-                            stack.push((end,element.elementtype(),tagstring));
+                            let properties = self.props(element.elementtype());
+                            let mixed = properties.textcontainer || properties.phoncontainer || element.elementdata().data.iter().any(|data| match data {
+                                DataType::Text(_) => true,
+                                _ => false
+                            });
+                            stack.push((end,mixed,tagstring));
                         }
-                        if !ElementGroup::TextMarkup.contains(element.elementtype()) && element.elementtype() != ElementType::TextContent && element.elementtype() != ElementType::PhonContent {
+                        //(an empty element is not on the stack, so this considers the parent then)
+                        if !stack.last().map_or(false, |(_,mixed,_)| *mixed) {
                             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                         }
                     }
@@ -300,7 +308,7 @@ impl Document {
         }
 
         //don't forget the final closing elements
-        while let Some((end, _elementtype, _tagstring)) = stack.pop() {
+        while let Some((end, _mixed, _tagstring)) = stack.pop() {
             writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
             //eprintln!("[DEBUG] <-- Popped final end tag {}", tagstring.as_str());
         }
-- 
2.43.0


From 3ba884d9184778d3dd199516eedeb5737ff35a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 02/29] fix: write comments verbatim, they are not subject to
 escaping

---
 src/serialiser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 574b530..89d77ab 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -297,7 +297,11 @@ impl Document {
                 },
                 DataType::Comment(comment) => {
                     //eprintln!("[DEBUG] (processing comment)");
-                    let text = BytesText::from_plain_str(comment.as_str());
+                    //comments are not subject to escaping in XML
+                    if comment.contains("--") || comment.ends_with('-') {
+                        return Err(FoliaError::SerialisationError(format!("Comment can not be expressed in XML: {}", comment)));
+                    }
+                    let text = BytesText::from_escaped_str(comment.as_str());
                     writer.write_event(Event::Comment(text)).map_err(to_serialisation_error)?;
                 }
                 DataType::SpanReference(_) | DataType::AddElement(_) => {
-- 
2.43.0


From 4baed143bb4bb793f1ab31f02bb8e169f40aa461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 03/29] fix: write set and processor of elements that have
 nothing else to encode, and those of features

---
 src/serialiser.rs | 53 ++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 89d77ab..a8a073c 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -238,36 +238,41 @@ impl Document {
                                 start.push_attribute((attrib.attribtype().into(), format!("{}",attrib).as_str() ));
                             }
                         }
+                        //decode encoded attributes
+                        let subset = element.subset();
+                        let class = element.class();
+                        //check if this processor is the default one, if so we don't need
+                        //to serialise it (features do not inherit a default processor)
+                        let processor_is_default = match element.get_declaration() {
+                            Some(declaration) => element.elementtype() != ElementType::Feature && declaration.default_processor() == element.processor_key(),
+                            None => false
+                        };
+                        //an element that carries none of these is not encoded when it is parsed, it does
+                        //not inherit any defaults either
+                        let inherits_defaults = subset.is_some() || class.is_some() || (element.processor().is_some() && !processor_is_default);
                         if let Some(declaration_key) = element.declaration_key() {
                             //check if the declaration is the default, no need to serialise set then
-                            if !dec_is_default.get(declaration_key as usize).expect("checking default")  && element.elementtype() != ElementType::Feature {
-                                //decode encoded attributes
+                            let set_is_default = if element.elementtype() == ElementType::Feature {
+                                element.get_parent().map_or(false, |parent| parent.declaration_key() == Some(declaration_key)) ||
+                                    *dec_is_default.get(declaration_key as usize).expect("checking default")
+                            } else {
+                                *dec_is_default.get(declaration_key as usize).expect("checking default")
+                            };
+                            if !set_is_default || !inherits_defaults {
                                 if let Some(set) = element.set() {
                                     start.push_attribute(("set", set) );
                                 }
                             }
-                            if let Some(subset) = element.subset() {
-                                start.push_attribute(("subset", subset) );
-                            }
-                            if let Some(class) = element.class() {
-                                start.push_attribute(("class", class) );
-                            }
-                            if let Some(processor) = element.processor() {
-                                //check if this processor is the default one, if so we don't need
-                                //to serialise it
-                                let is_default: bool = if let Some(declaration) = self.get_declaration(declaration_key) {
-                                    if declaration.processors.len() == 1 {
-                                        declaration.processors.get(0) == element.processor_key().as_ref()
-                                    } else {
-                                        false
-                                    }
-                                } else {
-                                    false
-                                };
-
-                                if !is_default {
-                                    start.push_attribute(("processor", processor) );
-                                }
+                        }
+                        if let Some(subset) = subset {
+                            start.push_attribute(("subset", subset) );
+                        }
+                        if let Some(class) = class {
+                            start.push_attribute(("class", class) );
+                        }
+                        if let Some(processor) = element.processor() {
+                            if !processor_is_default || (!inherits_defaults && element.set().is_none()) {
+                                start.push_attribute(("processor", processor) );
                             }
                         }
                         if element.data.is_empty() {
-- 
2.43.0


From 5a30564d191113b6c297600f93f4d1aa49c12356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 04/29] fix: features inherit the set of the annotation they
 are in

---
 src/document.rs   | 17 +++++++++++++++--
 src/parser.rs     |  9 ++++-----
 src/serialiser.rs | 14 ++++++++------
 3 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 066c882..17b5eb7 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -824,8 +824,21 @@ impl Store<ElementData,ElementKey> for Document {
                         //get the declaration key from the parent context:
                         let parent = self.get_elementdata(parent_key).ok_or( FoliaError::InternalError("Context for feature does not exist!".to_string()))?;
 
-                        let annotationtype = parent.elementtype.annotationtype().expect(format!("Unwrapping annotation type of parent {}", element.elementtype).as_str() );
-                        let deckey = self.declare(annotationtype, &element.set().unwrap().map(|s| s.to_string()),  &None, &None)?;
+                        //features are part of the annotation they are in, the parent may be a part of that too (e.g. a span role)
+                        let mut annotation = parent;
+                        while annotation.elementtype.annotationtype().is_none() {
+                            annotation = annotation.parent_key().and_then(|key| self.get_elementdata(key)).ok_or_else(||
+                                FoliaError::EncodeError(format!("Feature has no annotation to belong to (under {})", parent.elementtype))
+                            )?;
+                        }
+                        let annotationtype = annotation.elementtype.annotationtype().expect("Unwrapping annotation type");
+                        let deckey = match (element.set()?, annotation.declaration_key()?) {
+                            (None, Some(deckey)) => deckey, //features inherit the set from the annotation
+                            (set, _) => {
+                                let set = set.map(|s| s.to_string());
+                                self.declare(annotationtype, &set, &None, &None)?
+                            }
+                        };
                         declaration_key  = Some(deckey);
 
                         if let Some(declaration) = self.get_mut_declaration(deckey) {
diff --git a/src/parser.rs b/src/parser.rs
index ee16ac6..2a5cf99 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -376,6 +376,10 @@ impl Document {
                         let key = self.add(elem,stack.last().map(|key| *key))
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error adding <{}>", tagname))  )?;
+                        //add element to parent (the previous one in the stack)
+                        if let Some(parent_key) = stack.last() {
+                            self.attach_element(*parent_key, key)?;
+                        }
                         stack.push(key);
                         //add immediate children (limited to those derived from XML attributes)
                         for child in children {
@@ -402,11 +406,6 @@ impl Document {
                         } else {
                             return Err(FoliaError::InternalError(format!("ID from stack does not exist! {}", key )));
                         }
-
-                        //add element to parent (the previous one in the stack)
-                        if let Some(parent_key) = stack.last() {
-                            self.attach_element(*parent_key, key)?;
-                        }
                     },
                     (None, Event::Text(s)) => {
                         let text = s.unescape_and_decode(reader)?;
diff --git a/src/serialiser.rs b/src/serialiser.rs
index a8a073c..cb07812 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -252,12 +252,14 @@ impl Document {
                         let inherits_defaults = subset.is_some() || class.is_some() || (element.processor().is_some() && !processor_is_default);
                         if let Some(declaration_key) = element.declaration_key() {
                             //check if the declaration is the default, no need to serialise set then
-                            let set_is_default = if element.elementtype() == ElementType::Feature {
-                                element.get_parent().map_or(false, |parent| parent.declaration_key() == Some(declaration_key)) ||
-                                    *dec_is_default.get(declaration_key as usize).expect("checking default")
-                            } else {
-                                *dec_is_default.get(declaration_key as usize).expect("checking default")
-                            };
+                            let mut set_is_default = *dec_is_default.get(declaration_key as usize).expect("checking default");
+                            if element.elementtype() == ElementType::Feature {
+                                //features inherit the set from the annotation they are in
+                                let annotation = element.ancestors(Selector::elements()).find(|ancestor| ancestor.elementtype().annotationtype().is_some());
+                                if let Some(inherited_key) = annotation.and_then(|annotation| annotation.declaration_key()) {
+                                    set_is_default = inherited_key == declaration_key;
+                                }
+                            }
                             if !set_is_default || !inherits_defaults {
                                 if let Some(set) = element.set() {
                                     start.push_attribute(("set", set) );
-- 
2.43.0


From dabf678212ca4ef9a880c8b0b7a9207937ba183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:00 +0000
Subject: [PATCH 05/29] fix: parse begin and end datetime of processors

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2a5cf99..d6e309a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -486,13 +486,13 @@ impl Processor {
                     b"host" => { processor.host = value; },
                     b"user" => { processor.user = value; },
                     b"begindatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.begindatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
                         };
                     },
                     b"enddatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.enddatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
                         };
-- 
2.43.0


From 70d0ccd81f4f6f53d86bf203b39a0cbcf4d2a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 06/29] fix: parse declarations without annotators

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index d6e309a..7ad582d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -131,6 +131,10 @@ impl Document {
                                 }
                             }
                         },
+                        (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
+                            let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
+                            doc.add_declaration(declaration).map_err(FoliaError::add_parseerror("Error adding declaration"))?;
+                        },
                         _ => {
                         }
                     }
-- 
2.43.0


From d727a20ccb1ffa572929549b8b7f163b02294641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 07/29] fix: store submetadata when parsing and delimit it when
 serialising

---
 src/parser.rs     | 20 ++++++++++----------
 src/serialiser.rs |  6 +++++-
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7ad582d..f318082 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -86,7 +86,6 @@ impl Document {
         let mut parsedeclarations = false;
         let mut parseprovenance = false;
         let mut submetadata: Option<String> = None;
-        let mut submetadata_type: Option<String> = None;
         let mut text: Option<String> = None;
         let mut meta_id: Option<String> = None;
         let mut declaration_key: Option<DecKey> = None;
@@ -166,6 +165,7 @@ impl Document {
                             parseprovenance = true;
                         },
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
+                            let mut metadata = Metadata::default();
                             for attrib in e.attributes() {
                                 let attrib = attrib.expect("unwrapping submetadata attribute");
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
@@ -174,7 +174,10 @@ impl Document {
                                             submetadata = Some(value.clone());
                                         },
                                         b"type" => {
-                                            submetadata_type = Some(value.clone());
+                                            metadata.metadatatype = Some(value.clone());
+                                        },
+                                        b"src" => {
+                                            metadata.src = Some(value.clone());
                                         },
                                         otherwise => {
                                             eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
@@ -182,9 +185,10 @@ impl Document {
                                     }
                                 }
                             }
-                            if submetadata.is_none() {
-                                return Err(FoliaError::ParseError("Submetadata has no ID".to_string()));
-                            }
+                            match &submetadata {
+                                Some(submetadata_id) => doc.submetadata.insert(submetadata_id.clone(), metadata),
+                                None => return Err(FoliaError::ParseError("Submetadata has no ID".to_string()))
+                            };
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
@@ -266,11 +270,7 @@ impl Document {
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             if let (Some(text), Some(meta_id)) = (&text, &meta_id) {
                                 if let Some(submetadata_id) = &submetadata {
-                                    let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
-                                    if let Some(submetadata) = submetadata_opt {
-                                        if submetadata.metadatatype.is_none() && submetadata_type.is_some() {
-                                            submetadata.metadatatype = submetadata_type.clone();
-                                        }
+                                    if let Some(submetadata) = doc.submetadata.get_mut(submetadata_id) {
                                         submetadata.data.insert(meta_id.clone(), text.clone());
                                     }
                                 } else {
diff --git a/src/serialiser.rs b/src/serialiser.rs
index cb07812..97521c9 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -81,9 +81,11 @@ impl Document {
             if let Some(metadatatype) = &submetadata.metadatatype {
                 submetadata_start.push_attribute(("type", metadatatype.as_str() ));
             }
-            if let Some(src) = &self.metadata.src {
+            if let Some(src) = &submetadata.src {
                 submetadata_start.push_attribute(("src", src.as_str() ));
             }
+            writer.write_event(Event::Start(submetadata_start)).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             for (meta_id, value) in submetadata.data.iter() {
                 let mut meta_start = BytesStart::borrowed_name(b"meta");
                 meta_start.push_attribute(("id", meta_id.as_str() ));
@@ -92,6 +94,8 @@ impl Document {
                 writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
                 writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             }
+            writer.write_event(Event::End(BytesEnd::borrowed(b"submetadata"))).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         }
         writer.write_event(Event::End(BytesEnd::borrowed(b"metadata"))).map_err(to_serialisation_error)?;
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
-- 
2.43.0


From 4dcaa03a3b98fb62893ecbf9ff924c6939471502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:27 +0000
Subject: [PATCH 08/29] fix: treat empty tags as start and end tags, an empty
 body, metadata field or submetadata got lost

---
 src/parser.rs | 96 ++++++++++++++++-----------------------------------
 1 file changed, 29 insertions(+), 67 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f318082..442521b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -28,6 +28,9 @@ impl Document {
     ///Parses a FoLiA document given a reader
     pub(crate) fn parse<R: BufRead>(reader: &mut Reader<R>, properties: DocumentProperties) -> Result<Self, FoliaError> {
 
+        //an empty tag (<tag/>) is equivalent to a start tag immediately followed by an end tag
+        reader.expand_empty_elements(true);
+
         let mut body: Option<ElementData> = None;
         let mut buf = Vec::new();
         let mut nsbuf = Vec::new();
@@ -94,50 +97,6 @@ impl Document {
         loop {
             let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
             match e {
-                (ref ns, Event::Empty(ref e)) => {
-                    match (*ns, e.local_name())  {
-                        (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
-                            let processor = Processor::parse(&reader, &e)
-                                                      .map_err(FoliaError::add_parseerror("Error parsing processor"))?;
-                            if processor_stack.is_empty() {
-                                doc.add_processor(processor).map_err(FoliaError::add_parseerror("Error adding processor"))?;
-                            } else {
-                                let parent_key = processor_stack.last().expect("Polling processor stack");
-                                doc.add_subprocessor(*parent_key, processor).map_err(FoliaError::add_parseerror("Error adding subprocessor"))?;
-                            }
-                        },
-                        (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
-                            let mut processor_id: Option<String> = None;
-                            for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping annotator attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"processor" => {
-                                            processor_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
-                                    }
-                                }
-                            }
-                            if let Some(processor_id) = processor_id {
-                                if let Some(declaration_key) = declaration_key {
-                                    //add to a temporary structure because we don't know about the
-                                    //processors yet at this stage, provenance still has to be
-                                    //parsed, after that we resolve everything from this structure.
-                                    annotators.push((declaration_key, processor_id));
-                                }
-                            }
-                        },
-                        (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
-                            let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
-                            doc.add_declaration(declaration).map_err(FoliaError::add_parseerror("Error adding declaration"))?;
-                        },
-                        _ => {
-                        }
-                    }
-                },
                 (ref ns, Event::Start(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
@@ -191,6 +150,7 @@ impl Document {
                             };
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
+                            meta_id = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib.expect("unwrapping meta attribute");
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
@@ -204,7 +164,7 @@ impl Document {
                                     }
                                 }
                             }
-                            text = None;
+                            text = Some(String::new());
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             let processor = Processor::parse(&reader, &e).map_err(FoliaError::add_parseerror("Error parsing processor"))?;
@@ -217,6 +177,30 @@ impl Document {
                                 processor_stack.push(processor_key);
                             }
                         },
+                        (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
+                            let mut processor_id: Option<String> = None;
+                            for attrib in e.attributes() {
+                                let attrib = attrib.expect("unwrapping annotator attribute");
+                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+                                    match attrib.key {
+                                        b"processor" => {
+                                            processor_id = Some(value.clone());
+                                        },
+                                        otherwise => {
+                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
+                                        }
+                                    }
+                                }
+                            }
+                            if let Some(processor_id) = processor_id {
+                                if let Some(declaration_key) = declaration_key {
+                                    //add to a temporary structure because we don't know about the
+                                    //processors yet at this stage, provenance still has to be
+                                    //parsed, after that we resolve everything from this structure.
+                                    annotators.push((declaration_key, processor_id));
+                                }
+                            }
+                        },
                         (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
                             let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
                             let result = doc.add_declaration(declaration).map_err(FoliaError::add_parseerror("Error adding declaration"))?;
@@ -348,28 +332,6 @@ impl Document {
             loop {
                 let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
                 match e {
-                    (Some(ns), Event::Empty(ref e)) if ns == NSFOLIA => {
-                        //EMPTY TAG FOUND (<tag/>)
-                        //eprintln!("EMPTY TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
-                        let (elem, children) = ElementData::parse(reader, e)
-                                                .map_err(FoliaError::add_parseerror_string(
-                                                         format!("Error parsing <{}/>", tagname))  )?;
-                        let key = self.add(elem,stack.last().map(|key| *key))
-                                                .map_err(FoliaError::add_parseerror_string(
-                                                         format!("Error adding <{}/>", tagname))  )?;
-
-                        // Since there is no Event::End after, directly append it to the current node
-                        if let Some(parent_key) = stack.last() {
-                            self.attach_element(*parent_key, key)?;
-                        }
-                        //add immediate children (limited to those derived from XML attributes)
-                        for child in children {
-                            let child_key = self.add(child, Some(key))?;
-                            self.attach_element(key, child_key)?;
-                        }
-                        self.post_add(key, Some(&stack))?;
-                    },
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
                         //eprintln!("START TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-- 
2.43.0


From 4c398d1eab54d1cd84a341feb93e1ead78929fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 09/29] fix: keep all text of a metadata field

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 442521b..4ca5077 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -222,7 +222,11 @@ impl Document {
                 },
                 (None, Event::Text(s)) => {
                     let text_s = s.unescape_and_decode(reader)?;
-                    text = Some(text_s);
+                    text.get_or_insert_with(String::new).push_str(&text_s);
+                },
+                (None, Event::CData(s)) => {
+                    let text_s = reader.decode(&s)?;
+                    text.get_or_insert_with(String::new).push_str(&text_s);
                 },
                 (ref ns, Event::End(ref e)) => {
                     match (*ns, e.local_name())  {
-- 
2.43.0


From 993a56eb6174b80568eb4c489626d448fb02a26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:41 +0000
Subject: [PATCH 10/29] fix: refuse documents that end prematurely or have
 elements after the body

---
 src/parser.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4ca5077..4ab080e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -323,12 +323,36 @@ impl Document {
             doc.add(body,None).map_err(FoliaError::add_parseerror("Error adding body"))?;
             doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
             doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
+            Self::parse_end(reader, &mut buf, &mut nsbuf)?;
             Ok(doc)
         } else {
             Err(FoliaError::ParseError("No body found".to_string()))
         }
     }
 
+    ///Parses whatever is left after the body, which should be nothing but the end of the document
+    fn parse_end<R: BufRead>(reader: &mut Reader<R>, mut buf: &mut Vec<u8>, mut nsbuf: &mut Vec<u8>) -> Result<(), FoliaError> {
+        let mut closed = false;
+        loop {
+            let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
+            match e {
+                (_, Event::Start(ref e)) => {
+                    return Err(FoliaError::ParseError(format!("Unexpected element after the body: {}", String::from_utf8_lossy(e.name()))));
+                },
+                (_, Event::End(_)) => {
+                    closed = true; //the reader already verified that this closes the root element
+                },
+                (_, Event::Eof) => {
+                    if closed {
+                        return Ok(());
+                    }
+                    return Err(FoliaError::ParseError("Premature end of document".to_string()));
+                },
+                (_,_) => {}
+            }
+        }
+    }
+
     ///Parses all elementsm from XML, this in turn invokes all parsers for the subelements
     pub(crate) fn parse_elements<R: BufRead>(&mut self, reader: &mut Reader<R>, mut buf: &mut Vec<u8>, mut nsbuf: &mut Vec<u8>) -> Result<(), FoliaError> {
         if !self.elementstore.items.is_empty() {
@@ -408,7 +432,7 @@ impl Document {
                         }
                     },
                     (_, Event::Eof) => {
-                        break;
+                        return Err(FoliaError::ParseError("Premature end of document".to_string()));
                     }
                     (_,_) => {}
                 }
-- 
2.43.0


From 6cb916aff2c8e21037377ea28baff15e3635aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:39 +0000
Subject: [PATCH 11/29] fix: return errors instead of panicking on malformed
 attributes, entities and names

---
 src/attrib.rs |   2 +-
 src/parser.rs | 243 +++++++++++++++++++++++++-------------------------
 2 files changed, 121 insertions(+), 124 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 1b8508d..7499a64 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -372,7 +372,7 @@ impl Attribute {
                     if attrib_key.contains(&58) { //58 is a colon, we assume alien namespaces and ignore it
                         Ok(Attribute::Ignore)
                     } else {
-                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", std::str::from_utf8(attrib.key).expect("unable to parse attribute name"))))
+                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", String::from_utf8_lossy(attrib.key))))
                     }
                 }
             }
diff --git a/src/parser.rs b/src/parser.rs
index 4ab080e..98548fa 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -56,13 +56,13 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"FoLiA") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib: quick_xml::events::attributes::Attribute = attrib.unwrap();
+                                let attrib: quick_xml::events::attributes::Attribute = attrib?;
                                 match attrib.key {
                                     b"xml:id" => {
-                                        doc.id = attrib.unescape_and_decode_value(&reader).expect("Parsing ID")
+                                        doc.id = attrib.unescape_and_decode_value(&reader)?
                                     }
                                     b"version" => {
-                                        doc.version = attrib.unescape_and_decode_value(&reader).expect("Parsing version")
+                                        doc.version = attrib.unescape_and_decode_value(&reader)?
                                     },
                                     b"generator" | b"form " => {},  //we can ignore these
                                     _ => {}
@@ -101,18 +101,17 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping metadata attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"src" => {
-                                            doc.metadata.src = Some(value);
-                                        },
-                                        b"type" => {
-                                            doc.metadata.metadatatype = Some(value);
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
+                                let attrib = attrib?;
+                                let value = attrib.unescape_and_decode_value(&reader)?;
+                                match attrib.key {
+                                    b"src" => {
+                                        doc.metadata.src = Some(value);
+                                    },
+                                    b"type" => {
+                                        doc.metadata.metadatatype = Some(value);
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -126,21 +125,20 @@ impl Document {
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
                             let mut metadata = Metadata::default();
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping submetadata attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"xml:id" => {
-                                            submetadata = Some(value.clone());
-                                        },
-                                        b"type" => {
-                                            metadata.metadatatype = Some(value.clone());
-                                        },
-                                        b"src" => {
-                                            metadata.src = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
+                                let attrib = attrib?;
+                                let value = attrib.unescape_and_decode_value(&reader)?;
+                                match attrib.key {
+                                    b"xml:id" => {
+                                        submetadata = Some(value.clone());
+                                    },
+                                    b"type" => {
+                                        metadata.metadatatype = Some(value.clone());
+                                    },
+                                    b"src" => {
+                                        metadata.src = Some(value.clone());
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -152,15 +150,14 @@ impl Document {
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             meta_id = None;
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping meta attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"id" | b"xml:id" => {
-                                            meta_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
+                                let attrib = attrib?;
+                                let value = attrib.unescape_and_decode_value(&reader)?;
+                                match attrib.key {
+                                    b"id" | b"xml:id" => {
+                                        meta_id = Some(value.clone());
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -180,15 +177,14 @@ impl Document {
                         (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
                             let mut processor_id: Option<String> = None;
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping annotator attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"processor" => {
-                                            processor_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
+                                let attrib = attrib?;
+                                let value = attrib.unescape_and_decode_value(&reader)?;
+                                match attrib.key {
+                                    b"processor" => {
+                                        processor_id = Some(value.clone());
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -207,13 +203,13 @@ impl Document {
                             declaration_key = Some(result);
                         },
                         (Some(ns), tag) if ns == NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  String::from_utf8_lossy(tag)).to_string()));
                         },
                         (Some(ns),tag) if ns != NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                         _ => {
                             unreachable!()
@@ -289,25 +285,23 @@ impl Document {
                 (ref ns, Event::Start(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"text") if ns == NSFOLIA => {
-                            if let Ok((attribs,_))  =  ElementData::parse_attributes(&reader, e.attributes(), ElementType::Text) {
-                                body = Some(ElementData::new(ElementType::Text).with_attribs(attribs));
-                            }
+                            let (attribs,_) = ElementData::parse_attributes(&reader, e.attributes(), ElementType::Text)?;
+                            body = Some(ElementData::new(ElementType::Text).with_attribs(attribs));
                             break;
                         },
                         (Some(ns), b"speech") if ns == NSFOLIA => {
-                            if let Ok((attribs,_))  =  ElementData::parse_attributes(&reader, e.attributes(), ElementType::Speech) {
-                                body = Some(ElementData::new(ElementType::Speech).with_attribs(attribs));
-                            }
+                            let (attribs,_) = ElementData::parse_attributes(&reader, e.attributes(), ElementType::Speech)?;
+                            body = Some(ElementData::new(ElementType::Speech).with_attribs(attribs));
                             break;
                         },
                         /*(Some(ns), _) if ns == NSFOLIA => {
                             //just ignore everything else for now
                         },*/
                         (Some(ns),tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                     }
                 },
@@ -363,7 +357,7 @@ impl Document {
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
                         //eprintln!("START TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
+                        let tagname = decode_name(e.local_name())?;
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}>", tagname))  )?;
@@ -392,7 +386,7 @@ impl Document {
                         if let Some(elem) = self.get_elementdata(key) {
 
                             //verify we actually close the right thing (otherwise we have malformed XML)
-                            let elementname = str::from_utf8(e.local_name()).expect("Decoding XML tag from utf-8");
+                            let elementname = decode_name(e.local_name())?;
                             let elementtype = ElementType::from_str(elementname)?;
                             if elem.elementtype != elementtype {
                                 return Err(FoliaError::ParseError(format!("Malformed XML? Invalid element closed: {}, expected: {}", elementname, elem.elementtype.to_string() )));
@@ -444,6 +438,11 @@ impl Document {
     }
 }
 
+///Decodes the name of a tag
+fn decode_name(name: &[u8]) -> Result<&str, FoliaError> {
+    str::from_utf8(name).map_err(|e| FoliaError::ParseError(format!("Name is not valid utf-8: {}", e)))
+}
+
 fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
     if let Some(index) = tag.find("-") {
         let (declaration_type_string, suffix) = tag.split_at(index);
@@ -468,44 +467,43 @@ impl Processor {
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Processor, FoliaError> {
         let mut processor = Processor::default();
         for attrib in event.attributes()  {
-            if let Ok(attrib) = attrib {
-                let value = attrib.unescape_and_decode_value(&reader).expect("Parsing attribute value for processor");
-                match  attrib.key {
-                    b"xml:id" => { processor.id = value; },
-                    b"name" => { processor.name = value; },
-                    b"version" => { processor.version = value; },
-                    b"folia_version" => { processor.folia_version = value; },
-                    b"document_version" => { processor.document_version = value; },
-                    b"command" => { processor.command = value; },
-                    b"host" => { processor.host = value; },
-                    b"user" => { processor.user = value; },
-                    b"begindatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
-                            Ok(dt) => processor.begindatetime = Some(dt),
-                            Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
-                        };
-                    },
-                    b"enddatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
-                            Ok(dt) => processor.enddatetime = Some(dt),
-                            Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
-                        };
-                    },
-                    b"src" => { processor.src = value; },
-                    b"format" => { processor.format = value; },
-                    b"resourcelink" => { processor.resourcelink = value; },
-                    b"type" => { match value.as_str() {
-                        "manual" => processor.processortype = ProcessorType::Manual,
-                        "auto" => processor.processortype = ProcessorType::Auto,
-                        "generator" => processor.processortype = ProcessorType::Generator,
-                        "datasource" => processor.processortype = ProcessorType::DataSource,
-                        _ => {
-                            return Err(FoliaError::ParseError(format!("Invalid processor type: {:?}", value )));
-                        }
-                    }},
-                    tag => {
-                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", str::from_utf8(tag).unwrap() )));
+            let attrib = attrib?;
+            let value = attrib.unescape_and_decode_value(&reader)?;
+            match  attrib.key {
+                b"xml:id" => { processor.id = value; },
+                b"name" => { processor.name = value; },
+                b"version" => { processor.version = value; },
+                b"folia_version" => { processor.folia_version = value; },
+                b"document_version" => { processor.document_version = value; },
+                b"command" => { processor.command = value; },
+                b"host" => { processor.host = value; },
+                b"user" => { processor.user = value; },
+                b"begindatetime" => {
+                    match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
+                        Ok(dt) => processor.begindatetime = Some(dt),
+                        Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
+                    };
+                },
+                b"enddatetime" => {
+                    match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
+                        Ok(dt) => processor.enddatetime = Some(dt),
+                        Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
+                    };
+                },
+                b"src" => { processor.src = value; },
+                b"format" => { processor.format = value; },
+                b"resourcelink" => { processor.resourcelink = value; },
+                b"type" => { match value.as_str() {
+                    "manual" => processor.processortype = ProcessorType::Manual,
+                    "auto" => processor.processortype = ProcessorType::Auto,
+                    "generator" => processor.processortype = ProcessorType::Generator,
+                    "datasource" => processor.processortype = ProcessorType::DataSource,
+                    _ => {
+                        return Err(FoliaError::ParseError(format!("Invalid processor type: {:?}", value )));
                     }
+                }},
+                tag => {
+                    return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
                 }
             }
         }
@@ -518,7 +516,7 @@ impl ElementData {
         let mut attributes: Vec<Attribute> = Vec::new();
         let mut children: Vec<ElementData> = Vec::new();
         'outerloop: for attrib in attribiter {
-            let attrib = &attrib.expect("Parsing XML attribute");
+            let attrib = &attrib?;
             match Attribute::parse(&reader, attrib) {
                 //normal behaviour
                 Ok(attrib) => { attributes.push(attrib); },
@@ -532,7 +530,7 @@ impl ElementData {
                             if let AcceptedData::AcceptElementType(acceptedtype) = accepteddata {
                                 if featuregroup.contains(*acceptedtype) {
                                     let properties = Properties::new(*acceptedtype);
-                                    if properties.subset.is_some() && str::from_utf8(attrib.key).unwrap() == properties.subset.unwrap() {
+                                    if properties.subset.is_some() && attrib.key == properties.subset.unwrap().as_bytes() {
                                         let child = ElementData::new(ElementType::Feature).
                                                                 with_attribs(vec![
                                                                     Attribute::Subset(properties.subset.unwrap().to_string()),
@@ -556,7 +554,7 @@ impl ElementData {
     ///Parse this element from XML, note that this does not handle the child elements, those are
     ///appended by the main parser in Document::parse_body()
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(ElementData,Vec<ElementData>), FoliaError> {
-        let elementname = str::from_utf8(event.local_name()).expect("utf-8 decoding");
+        let elementname = decode_name(event.local_name())?;
         let elementtype = ElementType::from_str(elementname)?;
         let (attributes, children) = ElementData::parse_attributes(reader, event.attributes(), elementtype)
                                      .map_err(FoliaError::add_parseerror_string(format!("Error parsing attributes for {}", elementname)))?;
@@ -566,32 +564,31 @@ impl ElementData {
 
 impl Declaration {
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart, tag: &[u8]) -> Result<Declaration, FoliaError> {
-        let declaration_type = get_declaration_type(str::from_utf8(tag).expect("utf-8 decoding"))?;
+        let declaration_type = get_declaration_type(decode_name(tag)?)?;
         let mut set: Option<String> = None;
         let mut alias: Option<String> = None;
         let mut format: Option<String> = None;
         for attrib in event.attributes() {
-            let attrib = attrib.expect("unwrapping declaration attribute");
-            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                match attrib.key {
-                    b"set" => {
-                        set = Some(value.clone());
-                    },
-                    b"alias" => {
-                        alias = Some(value.clone());
-                    },
-                    b"format" => {
-                        format = Some(value.clone());
-                    },
-                    b"annotator" => {
-                        //TODO: handle old-style default
-                    },
-                    b"annotatortype" => {
-                        //TODO: handle old-style default
-                    },
-                    otherwise => {
-                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",str::from_utf8(otherwise).unwrap());
-                    }
+            let attrib = attrib?;
+            let value = attrib.unescape_and_decode_value(&reader)?;
+            match attrib.key {
+                b"set" => {
+                    set = Some(value.clone());
+                },
+                b"alias" => {
+                    alias = Some(value.clone());
+                },
+                b"format" => {
+                    format = Some(value.clone());
+                },
+                b"annotator" => {
+                    //TODO: handle old-style default
+                },
+                b"annotatortype" => {
+                    //TODO: handle old-style default
+                },
+                otherwise => {
+                    eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
                 }
             }
         }
-- 
2.43.0


From d3c624487fe2bc0976b4c88c0946f64abc2f8110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:34 +0000
Subject: [PATCH 12/29] fix: keep the provenance chain a tree in which every
 processor occurs once

---
 src/document.rs | 75 ++++++++++++++++++++++++++++++++++++-------------
 src/parser.rs   | 24 +++++++++-------
 2 files changed, 69 insertions(+), 30 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 17b5eb7..66c1fec 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -395,32 +395,52 @@ impl Document {
         Ok(())
     }
 
-    ///Add an element to the provenance chain
+    ///Add a processor to the provenance chain. If the document already has this processor (by ID), it is left where it is.
     ///Returns the key
-    pub fn add_processor(&mut self, processor: Processor) -> Result<ProcKey, FoliaError> {
+    pub fn add_processor(&mut self, mut processor: Processor) -> Result<ProcKey, FoliaError> {
+        if let Some(key) = self.get_processor_key_by_id(&processor.id) {
+            return Ok(key);
+        }
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
-        let child_key = self.add(processor, None);
-        if let Ok(child_key) = child_key {
-            self.provenancestore.chain.push(child_key);
-            for subprocessor in pending_subprocessors {
-                self.add_subprocessor(child_key, subprocessor)?;
-            }
+        let existing_subprocessors: Vec<ProcKey> = std::mem::replace(&mut processor.processors, vec!());
+        if existing_subprocessors.iter().any(|key| self.get_processor(*key).is_none()) {
+            return Err(FoliaError::InternalError(format!("Subprocessor of {} does not exist", processor.id)));
+        }
+        let child_key = self.add(processor, None)?;
+        self.provenancestore.chain.push(child_key);
+        for subprocessor_key in existing_subprocessors {
+            self.attach_processor(child_key, subprocessor_key)?;
         }
-        child_key
+        for subprocessor in pending_subprocessors {
+            self.add_subprocessor(child_key, subprocessor)?;
+        }
+        Ok(child_key)
     }
 
-    ///Add a processor as a subprocessor
+    ///Add a processor as a subprocessor. If the document already has this processor (by ID), it is left where it is.
     ///Returns the key
-    pub fn add_subprocessor(&mut self, parent_key: ProcKey, processor: Processor) -> Result<ProcKey, FoliaError> {
+    pub fn add_subprocessor(&mut self, parent_key: ProcKey, mut processor: Processor) -> Result<ProcKey, FoliaError> {
+        //ensure the parent exists
+        if !self.get_processor(parent_key).is_some() {
+            return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
+        };
+        if let Some(key) = self.get_processor_key_by_id(&processor.id) {
+            return Ok(key);
+        }
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
-        let child_key = self.add(processor, None);
-        if let Ok(child_key) = child_key {
-            self.attach_processor(parent_key, child_key)?;
-            for subprocessor in pending_subprocessors {
-                self.add_subprocessor(child_key, subprocessor)?;
-            }
+        let existing_subprocessors: Vec<ProcKey> = std::mem::replace(&mut processor.processors, vec!());
+        if existing_subprocessors.iter().any(|key| self.get_processor(*key).is_none()) {
+            return Err(FoliaError::InternalError(format!("Subprocessor of {} does not exist", processor.id)));
+        }
+        let child_key = self.add(processor, None)?;
+        self.attach_processor(parent_key, child_key)?;
+        for subprocessor_key in existing_subprocessors {
+            self.attach_processor(child_key, subprocessor_key)?;
         }
-        child_key
+        for subprocessor in pending_subprocessors {
+            self.add_subprocessor(child_key, subprocessor)?;
+        }
+        Ok(child_key)
     }
 
     ///Adds the processor element to the parent element, automatically takes care
@@ -431,14 +451,29 @@ impl Document {
             return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
         };
 
-        if let Some(child) = self.get_mut_processor(child_key) {
+        //a processor can not become a part of itself
+        let mut ancestor_key = Some(parent_key);
+        while let Some(key) = ancestor_key {
+            if key == child_key {
+                return Err(FoliaError::InternalError(format!("Processor {} can not be a subprocessor of itself", child_key)));
+            }
+            ancestor_key = self.get_processor(key).and_then(|processor| processor.parent);
+        }
+
+        let oldparent_key = if let Some(child) = self.get_mut_processor(child_key) {
             //add the new parent and return the old parent
-            child.parent = Some(parent_key);
+            child.parent.replace(parent_key)
         } else {
             //child does not exist
             return Err(FoliaError::InternalError(format!("Child does not exist: {}", child_key)));
         };
 
+        //detach the child from wherever it was
+        if let Some(oldparent) = oldparent_key.and_then(|key| self.get_mut_processor(key)) {
+            oldparent.processors.retain(|key| *key != child_key);
+        }
+        self.provenancestore.chain.retain(|key| *key != child_key);
+
         if let Some(parent) = self.get_mut_processor(parent_key) {
             parent.processors.push(child_key);
         }
diff --git a/src/parser.rs b/src/parser.rs
index 98548fa..3a0f231 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -165,6 +165,9 @@ impl Document {
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             let processor = Processor::parse(&reader, &e).map_err(FoliaError::add_parseerror("Error parsing processor"))?;
+                            if doc.get_processor_key_by_id(&processor.id).is_some() {
+                                return Err(FoliaError::ParseError(format!("Duplicate processor: {}", processor.id)));
+                            }
                             if processor_stack.is_empty() {
                                 let processor_key = doc.add_processor(processor).map_err(FoliaError::add_parseerror("Error adding processor"))?;
                                 processor_stack.push(processor_key);
@@ -230,6 +233,17 @@ impl Document {
                             submetadata = None;
                         },
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
+                            //we are done with the declarations and provenance (in whatever order), we can now
+                            //assign processors to declarations using our temporary structure
+                            for (dec_key, processor_id) in annotators.iter() {
+                                if let Some(processor_key) = doc.get_processor_key_by_id(processor_id) {
+                                    if let Some(declaration) = doc.get_mut_declaration(*dec_key) {
+                                        if !declaration.processors.contains(&processor_key) {
+                                            declaration.processors.push(processor_key);
+                                        }
+                                    }
+                                }
+                            }
                             break;
                         },
                         (Some(ns), b"annotations") if ns == NSFOLIA => {
@@ -237,16 +251,6 @@ impl Document {
                         },
                         (Some(ns), b"provenance") if ns == NSFOLIA => {
                             parseprovenance = false;
-
-                            //we are done with provenance, we can now assign processors to
-                            //declarations using our temporary structure
-                            for (dec_key, processor_id) in annotators.iter() {
-                                if let Some(processor_key) = doc.get_processor_key_by_id(processor_id) {
-                                    if let Some(declaration) = doc.get_mut_declaration(*dec_key) {
-                                        declaration.processors.push(processor_key);
-                                    }
-                                }
-                            }
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             processor_stack.pop();
-- 
2.43.0


From 532271a55841e3a882bf061be9298739bf260bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 13/29] fix: annotation layers keep their attributes when they
 inherit a set from their spans

---
 src/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 66c1fec..8f71ca1 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -366,7 +366,9 @@ impl Document {
         }
         if let Some(add_attributes) = add_attributes {
             if let Some(element) = self.get_mut_elementdata(element_key) {
-                element.set_attribs(add_attributes);
+                for attribute in add_attributes {
+                    element.set_attrib(attribute);
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 860b47b1ffc485f73c714126fc239e9d102d44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:52 +0000
Subject: [PATCH 14/29] fix: common ancestors must be shared by all elements,
 also if the first ones share none

---
 src/select.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index c20a593..c570dd0 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -707,17 +707,16 @@ impl Document {
     }
 
     pub fn common_ancestors(&self, selector: Selector, elements: &[ElementKey]) -> Vec<ElementKey> {
-        let mut result: Vec<ElementKey> = Vec::new();
+        let mut result: Option<Vec<ElementKey>> = None;
         for sibling_key in elements {
             if let Some(sibling) = self.get_element(*sibling_key) {
                 let ancestors: Vec<ElementKey> = sibling.ancestors(selector.clone()).map(|e| e.key().expect("get key")).collect();
-                if result.is_empty() {
-                    result = ancestors.into_iter().collect();
-                } else {
-                    result = result.into_iter().filter(|a| ancestors.contains(a)).collect();
-                }
+                result = Some(match result {
+                    None => ancestors,
+                    Some(result) => result.into_iter().filter(|a| ancestors.contains(a)).collect()
+                });
             }
         }
-        result
+        result.unwrap_or_default()
     }
 }
-- 
2.43.0


From bf5650d69264532ba06d261fa06cc39eae0466bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 15/29] fix: infinite recursion when displaying an attribute
 type

---
 src/attrib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 7499a64..31c141d 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -64,7 +64,8 @@ impl Into<&str> for AttribType {
 
 impl fmt::Display for AttribType {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{}", self)
+        let attribtype: &str = (*self).into();
+        write!(f, "{}", attribtype)
     }
 }
 
-- 
2.43.0


From 1d8c51d6ac1f139ed5d4257dbec0766bf8b9d502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 16/29] fix: refuse elements with a duplicate ID instead of
 silently dropping them

---
 src/element.rs |  5 +++++
 src/store.rs   | 17 +++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index 5a28f83..724b076 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -95,6 +95,11 @@ impl Storable<ElementKey> for ElementData {
         false
     }
 
+    ///No two elements can share an ID
+    fn distinct(&self) -> bool {
+        true
+    }
+
     ///Returns the key of the current element
     fn key(&self) -> Option<ElementKey> {
         self.key
diff --git a/src/store.rs b/src/store.rs
index 9dfd452..c71dd5c 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -23,6 +23,12 @@ pub trait Storable<Key> {
         false
     }
 
+    ///Are all items different from one another, even if they have the same ID? Adding two such items with the same ID is
+    ///an error, by default the first one is considered to be the same item.
+    fn distinct(&self) -> bool {
+        false
+    }
+
     ///Get the key of the current item (if supported by the item)
     fn key(&self) -> Option<Key> {
         None
@@ -55,14 +61,17 @@ pub trait Store<T,Key> where T: Storable<Key>,
 
     ///Add a new item to the store (takes ownership)
     fn add(&mut self, mut item: T, context: Option<Key>) -> Result<Key,FoliaError> {
-        if item.encodable() {
-            item = self.encode(item, context)?;
-        }
-
         if let Some(key) = self.get_key(&item) {
+            if item.distinct() {
+                return Err(FoliaError::KeyError(format!("Duplicate ID: {}", item.maybe_id().unwrap_or_default())));
+            }
             return Ok(key);
         }
 
+        if item.encodable() {
+            item = self.encode(item, context)?;
+        }
+
         //Get the ID fo the item (if any)
         let id: Option<String> = item.maybe_id().map(|x| x.to_owned().to_string());
 
-- 
2.43.0


From 201dd713bf89ed4716a7fb0a46d5b6c0a1b46770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 17/29] fix: attaching an element to its own parent or
 descendant must not corrupt the tree

---
 src/document.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 8f71ca1..40e1d7e 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -267,31 +267,23 @@ impl Document {
     ///of removing the old parent (if any).
     pub fn attach_element(&mut self, parent_key: ElementKey, child_key: ElementKey) -> Result<(),FoliaError> {
         //ensure the parent exists
-        if !self.get(parent_key).is_some() {
+        if !self.get_elementdata(parent_key).is_some() {
             return Err(FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key)));
         };
 
-        let oldparent_key = if let Some(child) = self.get_mut(child_key) {
-            //add the new parent and return the old parent
-            let tmp = child.parent_key();
-            child.set_parent_key(Some(parent_key));
-            tmp
-        } else {
-            //child does not exist
-            return Err(FoliaError::InternalError(format!("Child does not exist: {}", child_key)));
-        };
-
-        if let Some(parent) = self.get_mut(parent_key) {
-            parent.push(DataType::Element(child_key));
+        //an element can not become a part of itself
+        if parent_key == child_key || self.ancestors_by_key(parent_key, Selector::elements()).any(|ancestor| ancestor.element.key() == Some(child_key)) {
+            return Err(FoliaError::InternalError(format!("Element {} can not be attached to itself or its own descendant {}", child_key, parent_key)));
         }
 
-        if let Some(oldparent_key) = oldparent_key {
-            //detach child from the old parent
-            if let Some(oldparent) = self.get_mut(oldparent_key) {
-                if let Some(index) = oldparent.index(&DataType::Element(child_key)) {
-                    oldparent.remove(index);
-                }
-            }
+        //detach child from the old parent (if any)
+        self.detach_element(child_key)?;
+
+        if let Some(child) = self.get_mut_elementdata(child_key) {
+            child.set_parent_key(Some(parent_key));
+        }
+        if let Some(parent) = self.get_mut_elementdata(parent_key) {
+            parent.push(DataType::Element(child_key));
         }
         Ok(())
     }
-- 
2.43.0


From 8a1f888e611f1236fe1090214b99bbc19509d2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:43 +0000
Subject: [PATCH 18/29] fix: validate new elements and their children in
 advance and add children in the context of their parent

---
 src/document.rs | 131 +++++++++++++++++++++++++++---------------------
 1 file changed, 74 insertions(+), 57 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 40e1d7e..dc669a4 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -172,8 +172,8 @@ impl Document {
     ///Add an element to the document (but the element will be an orphan unless it is the very
     ///first one, you may want to use ``add_element_to`` or ``annotate`` instead)
     pub fn add_element(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,_) = self.add_children(element)?;
-        <Self as Store<ElementData,ElementKey>>::add(self, element, None)
+        self.check_new_element(None, &mut Vec::new(), &mut Vec::new(), &element)?;
+        self.add_new_element(None, element)
     }
 
     ///Add a declaration. It is strongly recommended to use ``declare()`` instead
@@ -196,71 +196,88 @@ impl Document {
     ///takes care of adding and attaching for you. You may want to use ``annotate`` instead
     ///as that is an even higher-level function.
     pub fn add_element_to(&mut self, parent_key: ElementKey, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,added_subelements) = self.add_children(element)?;
-        match <Self as Store<ElementData,ElementKey>>::add(self, element, Some(parent_key)) {
-            Ok(child_key) => {
-                if let Some(added_subelements) = added_subelements {
-                    for subchild_key in added_subelements.iter() {
-                        if let Some(subchilddata) = self.get_mut_elementdata(*subchild_key) {
-                            subchilddata.set_parent_key(Some(child_key));
-                        }
-                        self.post_add(*subchild_key, None)?;
-                    }
+        self.check_new_element(Some(parent_key), &mut Vec::new(), &mut Vec::new(), &element)
+            .and_then(|_| self.add_new_element(Some(parent_key), element))
+            .map_err(|err| FoliaError::InternalError(format!("Unable to add element to parent: {}", err)))
+    }
+
+    ///Adds a new element and then its hitherto 'unborn' children, ``check_new_element()`` must have
+    ///been called in advance.
+    fn add_new_element(&mut self, parent_key: Option<ElementKey>, mut element: ElementData) -> Result<ElementKey, FoliaError> {
+        let data = std::mem::replace(&mut element.data, Vec::new());
+        let key = <Self as Store<ElementData,ElementKey>>::add(self, element, parent_key)?;
+        if let Some(parent_key) = parent_key {
+            self.attach_element(parent_key, key)?;
+        }
+        for item in data {
+            match item {
+                DataType::AddElement(child) => {
+                    self.add_new_element(Some(key), child)?;
+                },
+                DataType::Element(child_key) => self.attach_element(key, child_key)?,
+                item => if let Some(element) = self.get_mut_elementdata(key) {
+                    element.push(item);
                 }
-                self.attach_element(parent_key, child_key)?;
-                self.post_add(child_key, None)?;
-                Ok(child_key)
-            },
-            Err(err) => {
-                Err(FoliaError::InternalError(format!("Unable to add element to parent: {}", err)))
             }
         }
+        if parent_key.is_some() {
+            self.post_add(key, None)?;
+        }
+        Ok(key)
     }
 
-    ///Before we can add an element, we need to create and add its hitherto 'unborn' children.
-    pub(crate) fn add_children(&mut self, mut element: ElementData) -> Result<(ElementData, Option<Vec<ElementKey>>),FoliaError> {
-        let mut has_unborn_children = false;
-        for child in element.data.iter() {
-            if let DataType::AddElement(_) = child {
-                has_unborn_children = true;
+    ///Checks in advance whether a new element, with all its 'unborn' children, can be added, so the
+    ///document remains as it was if not.
+    ///The parent is the parent of the outermost new element, the context holds the new elements this one is in,
+    ///and all IDs of new elements are collected in ids.
+    fn check_new_element<'a>(&self, parent_key: Option<ElementKey>, context: &mut Vec<&'a ElementData>, ids: &mut Vec<&'a str>, element: &'a ElementData) -> Result<(), FoliaError> {
+        //the elements this element is in that the document already has
+        let mut ancestors: Vec<&ElementData> = Vec::new();
+        if let Some(parent_key) = parent_key {
+            ancestors.push(self.get_elementdata(parent_key).ok_or_else(||
+                FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key))
+            )?);
+            ancestors.extend(self.ancestors_by_key(parent_key, Selector::elements()).map(|ancestor| ancestor.element.data));
+        }
+        let is_in = |test: &dyn Fn(ElementType) -> bool| context.iter().map(|e| *e).chain(ancestors.iter().map(|e| *e)).any(|e: &ElementData| test(e.elementtype));
+
+        if let Some(id) = element.id() {
+            if self.get_element_key_by_id(id).is_some() || ids.contains(&id) {
+                return Err(FoliaError::KeyError(format!("Duplicate ID: {}", id)));
             }
+            ids.push(id);
         }
-        if has_unborn_children {
-            let mut added_elements: Vec<ElementKey> = Vec::new();
-            let mut new_data: Vec<DataType> = Vec::new();
-            for child in element.data {
-                if let DataType::AddElement(child_elementdata) = child {
-                    //first we do a recursion step to add the grandchildren, if any
-                    let child_key = match self.add_children(child_elementdata) {
-                        Ok((child_elementdata_new, Some(added_grandchildren))) => {
-                            let child_key = <Self as Store<ElementData,ElementKey>>::add(self, child_elementdata_new, None)?;
-                            for grandchild_key in added_grandchildren {
-                                if let Some(subchilddata) = self.get_mut_elementdata(grandchild_key) {
-                                    subchilddata.set_parent_key(Some(child_key));
-                                }
-                                self.post_add(grandchild_key, None)?;
-                            }
-                            child_key
-                        },
-                        Ok((child_elementdata_new, None)) => {
-                            let child_key = <Self as Store<ElementData,ElementKey>>::add(self, child_elementdata_new, None)?;
-                            child_key
-                        }
-                        Err(e) => {
-                            return Err(e);
-                        }
-                    };
-                    new_data.push(DataType::Element(child_key));
-                    added_elements.push(child_key);
-                } else {
-                    new_data.push(child);
+        match element.elementtype {
+            ElementType::WordReference if parent_key.is_some() || !context.is_empty() => {
+                let idref = element.idref().ok_or_else(|| FoliaError::IncompleteError("Wref element does not reference anything!".to_string()))?;
+                if self.get_element_key_by_id(idref).is_none() {
+                    return Err(FoliaError::KeyError(format!("Wref references an element that does not exist: {}", idref)));
+                }
+                if !is_in(&|elementtype| ElementGroup::Span.contains(elementtype)) {
+                    return Err(FoliaError::ValidationError(format!("Wref span parent not found! (idref={})", idref)));
+                }
+            },
+            ElementType::Feature if element.encodable() => {
+                if !is_in(&|elementtype| elementtype.annotationtype().is_some()) {
+                    return Err(FoliaError::EncodeError("Feature has no annotation to belong to".to_string()));
                 }
+            },
+            _ => {}
+        }
+        context.push(element);
+        for item in element.data.iter() {
+            match item {
+                DataType::AddElement(child) => self.check_new_element(parent_key, context, ids, child)?,
+                DataType::Element(child_key) => {
+                    if self.get_elementdata(*child_key).is_none() || ancestors.iter().any(|ancestor| ancestor.key() == Some(*child_key)) {
+                        return Err(FoliaError::InternalError(format!("Child can not be attached: {}", child_key)));
+                    }
+                },
+                _ => {}
             }
-            element.data = new_data;
-            Ok((element, Some(added_elements)))
-        } else {
-            Ok((element, None))
         }
+        context.pop();
+        Ok(())
     }
 
     ///Adds the child element to the parent element, automatically takes care
-- 
2.43.0


From 082b71416d4f63f04dc80b24006e1e2a1aef193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 19/29] fix: find the annotation layer under the element that
 holds it, do not leave an empty one behind on errors

---
 src/document.rs | 68 ++++++++++++++++++++++++-------------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index dc669a4..78c93fc 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -593,43 +593,15 @@ impl Document {
                             suitable = props.accepted_data.contains(&AcceptedData::AcceptElementGroup(ElementGroup::Layer)) || props.accepted_data.contains(&AcceptedData::AcceptElementType(layertype));
                         };
                         if suitable {
-                            let mut layer_key: Option<ElementKey> = self.get_layer_key(parent_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
-                            if layer_key.is_none() {
-                                //no layer found yet, add a new one
-                                let layerdata = match set {
-                                    Some(set) => ElementData::new(layertype).with_attrib(Attribute::Set(set.clone())),
-                                    None => ElementData::new(layertype)
-                                };
-                                self.check_element_addable(*ancestor_key, &layerdata)?;
-                                match self.add_element_to(*ancestor_key, layerdata) {
-                                    Ok(key) => layer_key = Some(key),
-                                    Err(e) => return Err(e)
-                                }
-                            };
-                            self.check_element_addable(layer_key.unwrap() , &element)?;
                             //we only did one iteration, taking the closest common ancestor
-                            return self.add_element_to(layer_key.unwrap(), element);
+                            return self.annotate_in_layer(*ancestor_key, layertype, set, element);
                         }
                     }
                     Err(FoliaError::IncompleteError(format!("Unable to find suitable common ancestor to create annotation layer")))
                 }
             } else if addspanfromstructure {
                 //invoked from the parent structure element that holds the layer (usually a sentence)
-                let mut layer_key: Option<ElementKey> = self.get_layer_key(parent_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
-                if layer_key.is_none() {
-                    //no layer found yet, add a new one
-                    let layerdata = match set {
-                        Some(set) => ElementData::new(layertype).with_attrib(Attribute::Set(set.clone())),
-                        None => ElementData::new(layertype)
-                    };
-                    self.check_element_addable(parent_key, &layerdata)?;
-                    match self.add_element_to(parent_key, layerdata) {
-                        Ok(key) => layer_key = Some(key),
-                        Err(e) => return Err(e)
-                    }
-                };
-                self.check_element_addable(layer_key.unwrap(), &element)?;
-                self.add_element_to(layer_key.unwrap(), element)
+                self.annotate_in_layer(parent_key, layertype, set, element)
             } else {
                 //normal behaviour
                 self.check_element_addable(parent_key, &element)?;
@@ -642,6 +614,28 @@ impl Document {
         }
     }
 
+    ///Adds a span annotation to the layer under the specified (structure) element, adds the layer if it does not exist yet
+    fn annotate_in_layer(&mut self, parent_key: ElementKey, layertype: ElementType, set: Option<String>, element: ElementData) -> Result<ElementKey, FoliaError> {
+        let annotationtype = element.elementtype.annotationtype().expect("annotation type");
+        if let Some(layer_key) = self.get_layer_key(parent_key, annotationtype, set.as_ref().map(|s| s.as_str()))? {
+            self.check_element_addable(layer_key, &element)?;
+            self.add_element_to(layer_key, element)
+        } else {
+            //no layer found yet, add a new one
+            let mut layerdata = ElementData::new(layertype);
+            if let Some(set) = set {
+                layerdata.set_attrib(Attribute::Set(set));
+            }
+            self.check_element_addable(parent_key, &layerdata)?;
+            self.check_type_acceptable(layertype, element.elementtype)?;
+            let layer_key = self.add_element_to(parent_key, layerdata.add_element(element))?;
+            match self.get_elementdata(layer_key).and_then(|layer| layer.data.last()) {
+                Some(DataType::Element(key)) => Ok(*key),
+                _ => Err(FoliaError::InternalError("Element went missing from new layer".to_string()))
+            }
+        }
+    }
+
     pub fn annotate_span(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
         if !ElementGroup::Span.contains(element.elementtype) {
             return Err(FoliaError::TypeError(format!("Element passed to annotate_span is not a span element")));
@@ -763,6 +757,8 @@ impl Document {
                             span_keys.push(k);
                         }
                     }
+                } else if ElementGroup::SpanRole.contains(ed.elementtype) {
+                    span_keys.extend(self.get_span_keys(ed));
                 }
             }
         }
@@ -788,18 +784,22 @@ impl Document {
         let parent = self.get_element(parent_key).ok_or(
             FoliaError::InternalError(format!("Specified parent element key not found"))
         )?;
-        let props = self.props(parent.elementtype());
+        self.check_type_acceptable(parent.elementtype(), element.elementtype)
+    }
+
+    fn check_type_acceptable(&self, parenttype: ElementType, elementtype: ElementType) -> Result<(), FoliaError> {
+        let props = self.props(parenttype);
         for accepted_data in props.accepted_data.iter() {
             match accepted_data {
-                AcceptedData::AcceptElementType(et) => if *et == element.elementtype {
+                AcceptedData::AcceptElementType(et) => if *et == elementtype {
                     return Ok(())
                 },
-                AcceptedData::AcceptElementGroup(g) => if g.contains(element.elementtype) {
+                AcceptedData::AcceptElementGroup(g) => if g.contains(elementtype) {
                     return Ok(())
                 }
             }
         }
-        Err(FoliaError::ValidationError(format!("Can't add element type {:?} to {:?}", element.elementtype, parent.elementtype())))
+        Err(FoliaError::ValidationError(format!("Can't add element type {:?} to {:?}", elementtype, parenttype)))
     }
 
 }
-- 
2.43.0


From b2f0eed5ea8c16ed1230f35fd78a39d39451cf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 20/29] fix: extract text of the requested set and text class
 only

---
 src/text.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 150e25d..65d1cb1 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -61,6 +61,24 @@ impl<'a> Element<'a> {
     ///Returns the text content of a given element
     pub fn text_by_key(&self, set: DecKey, textclass: ClassKey, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>) -> Result<String,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
+        let declaration = doc.get_declaration(set).ok_or_else(|| FoliaError::KeyError(format!("No such declaration ({})", set)))?;
+        let textclass = declaration.get_class(textclass).ok_or_else(|| FoliaError::KeyError(format!("No such text class ({})", textclass)))?;
+        self.text_by_class(declaration.set.as_ref().map(|s| s.as_str()), textclass, strict, retaintokenisation, previousdelimiter)
+    }
+
+    ///Tests if this (text content) element is in the specified set and has the specified class, the
+    ///text set and class "current" are the default if none is specified on the text content itself
+    fn has_textclass(&self, set: Option<&str>, textclass: &str) -> bool {
+        let set_matches = match (self.set(), set) {
+            (Some(selfset), Some(set)) => selfset == set,
+            (None, Some(set)) => set == DEFAULT_TEXT_SET || self.document().and_then(|doc| doc.get_default_set(AnnotationType::TEXT)) == Some(set),
+            (selfset, None) => selfset.is_none(),
+        };
+        set_matches && self.class().unwrap_or("current") == textclass
+    }
+
+    fn text_by_class(&self, set: Option<&str>, textclass: &str, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>) -> Result<String,FoliaError> {
+        let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
 
         let properties = doc.props(self.elementtype());
 
@@ -81,7 +99,7 @@ impl<'a> Element<'a> {
                                         text += textdelimiter;
                                     }
                                 }
-                                let textpart = element.text_by_key(set,textclass,strict, retaintokenisation,None)?;
+                                let textpart = element.text_by_class(set,textclass,strict, retaintokenisation,None)?;
                                 text += &textpart;
                             }
                         }
@@ -104,7 +122,7 @@ impl<'a> Element<'a> {
                            element.elementtype() == ElementType::Correction ||
                            ElementGroup::Span.contains(element.elementtype()) {
 
-                           if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
+                           if let Ok(textpart) = element.text_by_class(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
                                //delimiter will be buffered and only printed upon next iteration
                                text += &textpart;
                                if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
@@ -114,7 +132,7 @@ impl<'a> Element<'a> {
                         } else if element.elementtype() == ElementType::WordReference {
                             //follow the reference
                             if let Some(element) = element.resolve() {
-                               if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
+                               if let Ok(textpart) = element.text_by_class(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
                                    //delimiter will be buffered and only printed upon next iteration
                                    text += &textpart;
                                    if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
@@ -122,14 +140,14 @@ impl<'a> Element<'a> {
                                    }
                                }
                             }
-                        } else if element.elementtype() == ElementType::TextContent {
+                        } else if element.elementtype() == ElementType::TextContent && element.has_textclass(set, textclass) {
                             textcontent_element = Some(element);
                         }
                     }
                 }
             }
             if text.is_empty() && textcontent_element.is_some() {
-                if let Ok(parttext) = textcontent_element.unwrap().text_by_key(set,textclass,false,retaintokenisation, None) {
+                if let Ok(parttext) = textcontent_element.unwrap().text_by_class(set,textclass,false,retaintokenisation, None) {
                     text = parttext
                 }
             }
@@ -195,11 +213,12 @@ impl<'a> Element<'a> {
     ///fallback to the default text set and "current class".
     pub fn text(&self, textparameters: &TextParameters) -> Result<String,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
-        if let Some(dec_key) = doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &textparameters.set.as_ref().map(|s| s.as_str())).as_str()) {
-            let class_key = doc.class_key(dec_key, &textparameters.textclass.as_ref().map(|s| s.as_str()).expect("unwrapping textclass")  )?;
-            self.text_by_key(dec_key, class_key,textparameters.strict,textparameters.retaintokenisation, None)
+        let set = textparameters.set.as_ref().map(|s| s.as_str()).unwrap_or(DEFAULT_TEXT_SET);
+        let textclass = textparameters.textclass.as_ref().map(|s| s.as_str()).unwrap_or("current");
+        if doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &Some(set)).as_str()).is_some() {
+            self.text_by_class(Some(set), textclass, textparameters.strict, textparameters.retaintokenisation, None)
         } else {
-            Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", textparameters.set.as_ref().map(|s| s.as_str()).expect("unwrapping set"))))
+            Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", set)))
         }
     }
 }
-- 
2.43.0


From b2e14afcb9977afc35cc7a769c02e4c3d7170e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 21/29] fix: text around a linebreak or other element without
 text was lost

---
 src/text.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 65d1cb1..381a8cd 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -99,8 +99,10 @@ impl<'a> Element<'a> {
                                         text += textdelimiter;
                                     }
                                 }
-                                let textpart = element.text_by_class(set,textclass,strict, retaintokenisation,None)?;
-                                text += &textpart;
+                                //(not all elements have text of their own, a linebreak for instance only delimits)
+                                if let Ok(textpart) = element.text_by_class(set,textclass,strict, retaintokenisation,None) {
+                                    text += &textpart;
+                                }
                             }
                         }
                     },
-- 
2.43.0


From 9307fc73bfa0054099a8b59c7835245a8edac345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:57 +0000
Subject: [PATCH 22/29] fix: select by all criteria of a query, also if it
 leaves the element type open, and unions of more than two selectors

---
 src/document.rs |   2 +-
 src/element.rs  |   2 +-
 src/select.rs   | 136 +++++++++++++++++++++++++-----------------------
 3 files changed, 73 insertions(+), 67 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 78c93fc..55a4f22 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -356,7 +356,7 @@ impl Document {
                         //Do we have a set already?
                         if !element.has_attrib(AttribType::SET) {
                             //Find out the set from the child elements
-                            let query = Query::select().elementgroup(Cmp::Is(ElementGroup::Span)).set(Cmp::Some);
+                            let query = Query::select().elementgroup(Cmp::Is(ElementGroup::Span));
                             let selector = Selector::from_query(self, &query)?;
                             for spanelement in self.get_element(element_key).expect("getting element").select(selector, Recursion::Always) {
                                 if spanelement.elementtype().annotationtype() == elementtype.annotationtype() {
diff --git a/src/element.rs b/src/element.rs
index 724b076..689d178 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -567,7 +567,7 @@ impl<'a> Element<'a> {
                            .contexttype(Cmp::Is(self.elementtype()))
                            .set(match self.set() {
                                Some(set) => Cmp::Is(set.to_string()),
-                               None => Cmp::None,
+                               None => Cmp::Any,
                             })
                            .subset(subset)
                 ).expect("Compiling query for get_features()")
diff --git a/src/select.rs b/src/select.rs
index c570dd0..9129979 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -31,7 +31,11 @@ pub struct Selector {
     pub confidence: Cmp<f64>,
     pub annotator: Cmp<String>,
     pub annotatortype: Cmp<ProcessorType>,
-    pub next: Option<Box<Selector>>
+    pub next: Option<Box<Selector>>,
+    //Set, subset and class by name, for those that can not be encoded because the query leaves open which declaration they refer to
+    pub(crate) set_name: Cmp<String>,
+    pub(crate) subset_name: Cmp<String>,
+    pub(crate) class_name: Cmp<String>,
 }
 
 
@@ -52,83 +56,73 @@ impl Selector {
             Cmp::Some | Cmp::Is(_) =>  &query.contexttype,
             _ => &query.elementtype,
         };
-        selector.set = match &query.set {
+        let annotationtype: Option<AnnotationType> = match elementtype_source {
+            Cmp::Is(elementtype) => elementtype.annotationtype(),
+            _ => None,
+        };
+        match &query.set {
             Cmp::Is(set) => {
-                //encode the set from the query, given the document, if this fails then the set is
-                //unmatchable
-                let mut result: Cmp<DecKey> = Cmp::Unmatchable; //will try to falsify this
-                if let Cmp::Is(elementtype) = elementtype_source {
-                    if let Some(annotationtype) = elementtype.annotationtype() {
-                        if let Some(deckey) = document.get_declaration_key_by_id(&Declaration::index_id(annotationtype,&Some(set.as_str()))) {
-                            result = Cmp::Is(deckey);
-                        }
-                    }
-                }
-                result
-            },
-            Cmp::Any => Cmp::Any,
-            Cmp::Some => Cmp::Some,
-            Cmp::None => {
-                //even though set is None, we obtain the associated declaration
-                let mut result: Cmp<DecKey> = Cmp::Unmatchable; //will try to falsify this
-                if let Cmp::Is(elementtype) = elementtype_source {
-                    if let Some(annotationtype) = elementtype.annotationtype() {
-                        if let Some(deckey) = document.get_declaration_key_by_id(&Declaration::index_id(annotationtype,&None)) {
-                            result = Cmp::Is(deckey);
-                        }
-                    }
+                if let Some(annotationtype) = annotationtype {
+                    //encode the set from the query, given the document, if this fails then the set is
+                    //unmatchable
+                    selector.set = match document.get_declaration_key_by_id(&Declaration::index_id(annotationtype,&Some(set.as_str()))) {
+                        Some(deckey) => Cmp::Is(deckey),
+                        None => Cmp::Unmatchable,
+                    };
+                } else {
+                    selector.set_name = query.set.clone();
                 }
-                result
             },
-            Cmp::Unmatchable => Cmp::Unmatchable,
+            Cmp::Any => {},
+            //elements without a set may or may not have a declaration
+            Cmp::Some | Cmp::None => selector.set_name = query.set.clone(),
+            Cmp::Unmatchable => selector.set = Cmp::Unmatchable,
+        };
+        let declaration: Option<&Declaration> = match selector.set {
+            Cmp::Is(deckey) => document.get_declaration(deckey),
+            _ => None
         };
         //println!("{:?} -> {:?}",query.set,selector.set); //DEBUG
         selector.subset = match &query.subset {
             Cmp::Is(subset) => {
-                let mut result: Cmp<SubsetKey> = Cmp::Unmatchable; //will try to falsify this
-                if let Cmp::Is(deckey) = selector.set {
-                    if let Some(declaration) = document.get_declaration(deckey) {
-                        if let Some(subset_key) = declaration.subset_key(subset.as_str()) {
-                            result = Cmp::Is(subset_key);
-                        }
+                if let Some(declaration) = declaration {
+                    match declaration.subset_key(subset.as_str()) {
+                        Some(subset_key) => Cmp::Is(subset_key),
+                        None => Cmp::Unmatchable,
                     }
                 } else {
-                    return Err(FoliaError::QueryError(format!("Selector::from_query() can't match on a subset without a contexttype and a set, Add a .contextype() and .set() call. (selector.contexttype={:?}, selector.set={:?})",selector.contexttype, selector.set) ));
+                    selector.subset_name = query.subset.clone();
+                    Cmp::Any
                 }
-                result
             },
             Cmp::Any => Cmp::Any,
             Cmp::Some => Cmp::Some,
             Cmp::None => Cmp::None,
             Cmp::Unmatchable => Cmp::Unmatchable,
         };
-        selector.class = match &query.class {
-            Cmp::Is(class) => {
-                let mut result: Cmp<ClassKey> = Cmp::Unmatchable; //will try to falsify this
-                if let Cmp::Is(deckey) = selector.set {
-                    if let Some(declaration) = document.get_declaration(deckey) {
-                        match selector.subset {
-                            Cmp::Is(_) | Cmp::Some =>  {
-                                //we have a subset, so we assume the class is a subclass and encode it as such
-                                if let Some(class_key) = declaration.subclass_key(class.as_str()) {
-                                    result = Cmp::Is(class_key);
-                                }
-                            },
-                            _ =>  {
-                                //normal class
-                                if let Some(class_key) = declaration.class_key(class.as_str()) {
-                                    result = Cmp::Is(class_key);
-                                }
-                            }
-                        }
-                    }
+        selector.class = match (&query.class, declaration, &query.subset) {
+            (Cmp::Is(class), Some(declaration), Cmp::Is(_)) | (Cmp::Is(class), Some(declaration), Cmp::Some) => {
+                //we have a subset, so we assume the class is a subclass and encode it as such
+                match declaration.subclass_key(class.as_str()) {
+                    Some(class_key) => Cmp::Is(class_key),
+                    None => Cmp::Unmatchable,
                 }
-                result
             },
-            Cmp::Any => Cmp::Any,
-            Cmp::Some => Cmp::Some,
-            Cmp::None => Cmp::None,
-            Cmp::Unmatchable => Cmp::Unmatchable,
+            (Cmp::Is(class), Some(declaration), Cmp::None) => {
+                //normal class
+                match declaration.class_key(class.as_str()) {
+                    Some(class_key) => Cmp::Is(class_key),
+                    None => Cmp::Unmatchable,
+                }
+            },
+            (Cmp::Is(_), _, _) => {
+                selector.class_name = query.class.clone();
+                Cmp::Any
+            },
+            (Cmp::Any, _, _) => Cmp::Any,
+            (Cmp::Some, _, _) => Cmp::Some,
+            (Cmp::None, _, _) => Cmp::None,
+            (Cmp::Unmatchable, _, _) => Cmp::Unmatchable,
         };
         selector.processor = match &query.processor {
             Cmp::Is(processor_id) => {
@@ -143,6 +137,9 @@ impl Selector {
             Cmp::None => Cmp::None,
             Cmp::Unmatchable => Cmp::Unmatchable,
         };
+        selector.annotator = query.annotator.clone();
+        selector.annotatortype = query.annotatortype.clone();
+        selector.confidence = query.confidence.clone();
         Ok(selector)
     }
 
@@ -192,7 +189,10 @@ impl Selector {
     ///Add another selector, the resulting selection will then consist of the union
     ///of the selectors. This can be chained multiple times.
     pub fn and(mut self, selector: Selector) -> Self {
-        self.next = Some(Box::new(selector));
+        self.next = Some(Box::new(match self.next {
+            Some(next) => next.and(selector),
+            None => selector
+        }));
         self
     }
 
@@ -201,9 +201,11 @@ impl Selector {
     ///made to sets or classes that don't exist in the document, then it is unmatchable and there
     ///is no sense in actually performing any matching.
     pub fn matchable(&self) -> bool {
-        self.set != Cmp::Unmatchable &&
+        (self.set != Cmp::Unmatchable &&
+        self.subset != Cmp::Unmatchable &&
         self.class != Cmp::Unmatchable &&
-        self.processor != Cmp::Unmatchable
+        self.processor != Cmp::Unmatchable) ||
+        self.next.as_ref().map_or(false, |next| next.matchable())
     }
 
     ///Tests if the selector matches against the specified data item, given an element store.
@@ -227,6 +229,10 @@ impl Selector {
                     (self.subset == Cmp::Any || self.subset.matches(element.subset_key().as_ref())) &&
                     (self.class == Cmp::Any || self.class.matches(element.class_key().as_ref())) &&
                     (self.processor == Cmp::Any || self.processor.matches(element.processor_key().as_ref())) &&
+                    (self.set_name == Cmp::Any || self.set_name.matches(element.set().map(|s| s.to_string()).as_ref())) &&
+                    (self.subset_name == Cmp::Any || self.subset_name.matches(element.subset().map(|s| s.to_string()).as_ref())) &&
+                    (self.class_name == Cmp::Any || self.class_name.matches(element.class().map(|s| s.to_string()).as_ref())) &&
+                    (self.confidence == Cmp::Any || self.confidence.matches(element.elementdata().confidence().as_ref())) &&
                     (self.annotator == Cmp::Any || self.annotator.matches(element.annotator().map(|s| s.to_string()).as_ref())) &&
                     (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref()))
                 } else {
@@ -234,8 +240,8 @@ impl Selector {
                     false
                 }
             },
-            DataType::Text(_) => self.datatypes.contains(&DataTypeSelector::Text),
-            DataType::Comment(_) => self.datatypes.contains(&DataTypeSelector::Comments),
+            DataType::Text(_) => self.datatypes.is_empty() || self.datatypes.contains(&DataTypeSelector::Text),
+            DataType::Comment(_) => self.datatypes.is_empty() || self.datatypes.contains(&DataTypeSelector::Comments),
             DataType::AddElement(_) => false,
         };
         if let Some(next) = &self.next {
-- 
2.43.0


From 997be6e57bf132aeb31e0b44b9bd6bf8639f13df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 23/29] fix: include the text of corrections, the new or
 current text only

---
 src/text.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/text.rs b/src/text.rs
index 381a8cd..96ab269 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -122,6 +122,9 @@ impl<'a> Element<'a> {
                     if let Some(element) = doc.get_element(*element_key) {
                         if ElementGroup::Structure.contains(element.elementtype()) ||
                            element.elementtype() == ElementType::Correction ||
+                           //corrections: the original or suggested text is not part of the text
+                           element.elementtype() == ElementType::New ||
+                           element.elementtype() == ElementType::Current ||
                            ElementGroup::Span.contains(element.elementtype()) {
 
                            if let Ok(textpart) = element.text_by_class(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
@@ -175,6 +178,10 @@ impl<'a> Element<'a> {
             for item in self.elementdata().data.iter().rev() {
                 if let DataType::Element(element_key) = item {
                     if let Some(element) = doc.get_element(*element_key) {
+                        if self.elementtype() == ElementType::Correction && element.elementtype() != ElementType::New && element.elementtype() != ElementType::Current {
+                            //not part of the text
+                            continue;
+                        }
                         //recurse
                         match element.get_textdelimiter(retaintokenisation) {
                             Ok(Cow::Borrowed(s)) => {
-- 
2.43.0


From 031c2931645b6fee26f7e89c74c644597a78f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:27 +0000
Subject: [PATCH 24/29] fix: keep the metadata of processors

---
 src/parser.rs     |  4 +++-
 src/serialiser.rs | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3a0f231..1847a03 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -257,7 +257,9 @@ impl Document {
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             if let (Some(text), Some(meta_id)) = (&text, &meta_id) {
-                                if let Some(submetadata_id) = &submetadata {
+                                if let Some(processor) = processor_stack.last().and_then(|key| doc.get_mut_processor(*key)) {
+                                    processor.metadata.data.insert(meta_id.clone(), text.clone());
+                                } else if let Some(submetadata_id) = &submetadata {
                                     if let Some(submetadata) = doc.submetadata.get_mut(submetadata_id) {
                                         submetadata.data.insert(meta_id.clone(), text.clone());
                                     }
diff --git a/src/serialiser.rs b/src/serialiser.rs
index 97521c9..7f3b8d4 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -192,10 +192,18 @@ impl Document {
             if !processor.resourcelink.is_empty() {
                 processor_start.push_attribute(("resourcelink", processor.resourcelink.as_str() ));
             }
-            if processor.processors.is_empty() {
+            if processor.processors.is_empty() && processor.metadata.data.is_empty() {
                 writer.write_event(Event::Empty(processor_start)).map_err(to_serialisation_error)?;
             } else {
                 writer.write_event(Event::Start(processor_start)).map_err(to_serialisation_error)?;
+                for (meta_id, value) in processor.metadata.data.iter() {
+                    let mut meta_start = BytesStart::borrowed_name(b"meta");
+                    meta_start.push_attribute(("id", meta_id.as_str() ));
+                    writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::Text(BytesText::from_plain_str(value))).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
+                }
                 for subprocessor_key in processor.processors.iter() {
                     self.xml_processor(writer, *subprocessor_key)?;
                 }
-- 
2.43.0


From 391c275a39cdcdc95f5a368ea84326ef3144a176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:04 +0000
Subject: [PATCH 25/29] fix: read CDATA sections literally

---
 src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1847a03..f3f10cc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -224,7 +224,7 @@ impl Document {
                     text.get_or_insert_with(String::new).push_str(&text_s);
                 },
                 (None, Event::CData(s)) => {
-                    let text_s = reader.decode(&s)?;
+                    let text_s = s.unescape_and_decode(reader)?; //the reader escapes CDATA
                     text.get_or_insert_with(String::new).push_str(&text_s);
                 },
                 (ref ns, Event::End(ref e)) => {
@@ -412,11 +412,11 @@ impl Document {
                         }
                     },
                     (None, Event::CData(s)) => {
-                        let text = reader.decode(&s)?;
+                        let text = s.unescape_and_decode(reader)?; //the reader escapes CDATA
                         if text.trim() != "" {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
-                                    parent.push(DataType::Text(text.to_string()));
+                                    parent.push(DataType::Text(text));
                                 });
                             }
                         }
-- 
2.43.0


From 498d68a9d06bbad52104a68b797430c937c9eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:08 +0000
Subject: [PATCH 26/29] fix: serialise metadata in a fixed order

---
 src/serialiser.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 7f3b8d4..7734f92 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -3,6 +3,7 @@ use std::fs::File;
 use std::str;
 use std::str::FromStr;
 use std::borrow::ToOwned;
+use std::collections::HashMap;
 use std::string::ToString;
 
 use std::io::Write;
@@ -27,6 +28,13 @@ fn to_serialisation_error(err: quick_xml::Error) -> FoliaError {
     FoliaError::SerialisationError(format!("{}",err))
 }
 
+/// The items of a map in the order of their keys, so that the same document always has the same serialisation
+fn in_order<T>(map: &HashMap<String,T>) -> Vec<(&String,&T)> {
+    let mut items: Vec<(&String,&T)> = map.iter().collect();
+    items.sort_by(|a,b| a.0.cmp(b.0));
+    items
+}
+
 impl Document {
     ///Serialises a document to XML (vector of bytes, utf-8)
     pub fn xml(&self, root_key: ElementKey, indent: usize) -> Result<Vec<u8>, FoliaError> {
@@ -66,7 +74,7 @@ impl Document {
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         self.xml_declarations(writer)?;
         self.xml_provenance(writer)?;
-        for (meta_id, value) in self.metadata.data.iter() {
+        for (meta_id, value) in in_order(&self.metadata.data) {
             let mut meta_start = BytesStart::borrowed_name(b"meta");
             meta_start.push_attribute(("id", meta_id.as_str() ));
             writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
@@ -75,7 +83,7 @@ impl Document {
             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         }
         //there is a bit too much duplication going on here, to be solved later
-        for (submetadata_id, submetadata) in self.submetadata.iter() {
+        for (submetadata_id, submetadata) in in_order(&self.submetadata) {
             let mut submetadata_start = BytesStart::borrowed_name(b"submetadata");
             submetadata_start.push_attribute(("xml:id", submetadata_id.as_str() ));
             if let Some(metadatatype) = &submetadata.metadatatype {
@@ -86,7 +94,7 @@ impl Document {
             }
             writer.write_event(Event::Start(submetadata_start)).map_err(to_serialisation_error)?;
             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
-            for (meta_id, value) in submetadata.data.iter() {
+            for (meta_id, value) in in_order(&submetadata.data) {
                 let mut meta_start = BytesStart::borrowed_name(b"meta");
                 meta_start.push_attribute(("id", meta_id.as_str() ));
                 writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
@@ -196,7 +204,7 @@ impl Document {
                 writer.write_event(Event::Empty(processor_start)).map_err(to_serialisation_error)?;
             } else {
                 writer.write_event(Event::Start(processor_start)).map_err(to_serialisation_error)?;
-                for (meta_id, value) in processor.metadata.data.iter() {
+                for (meta_id, value) in in_order(&processor.metadata.data) {
                     let mut meta_start = BytesStart::borrowed_name(b"meta");
                     meta_start.push_attribute(("id", meta_id.as_str() ));
                     writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
-- 
2.43.0


From 7e9ec923d1e9605861d915d999f88e431833eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:37 +0000
Subject: [PATCH 27/29] fix: refuse a class or subset that can not be numbered
 rather than dropping it

---
 src/document.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 55a4f22..a7c0deb 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -850,9 +850,7 @@ impl Store<ElementData,ElementKey> for Document {
 
             if let Ok(Some(class)) = element.class() {
                 if let Some(declaration) = self.get_mut_declaration(deckey) {
-                    if let Ok(clskey) = declaration.add_class(Cow::Borrowed(class)) {
-                        class_key = Some(clskey);
-                    }
+                    class_key = Some(declaration.add_class(Cow::Borrowed(class))?);
                 }
             }
 
@@ -889,14 +887,10 @@ impl Store<ElementData,ElementKey> for Document {
 
                         if let Some(declaration) = self.get_mut_declaration(deckey) {
                             if let Ok(Some(class)) = element.class() {
-                                if let Ok(clskey) = declaration.add_subclass(Cow::Borrowed(class)) {
-                                    class_key = Some(clskey);
-                                }
+                                class_key = Some(declaration.add_subclass(Cow::Borrowed(class))?);
                             }
                             if let Ok(Some(subset)) = element.subset() {
-                                if let Ok(subsetkey) = declaration.add_subset(Cow::Borrowed(subset)) {
-                                    subset_key = Some(subsetkey);
-                                }
+                                subset_key = Some(declaration.add_subset(Cow::Borrowed(subset))?);
                             }
                         }
 
-- 
2.43.0


From 86b2a70253128d163c0ee0aa2e5cf3f01bd80414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:43 +0000
Subject: [PATCH 28/29] fix: selecting from a large document overflowed the
 stack

---
 src/select.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 9129979..c4a86d2 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -414,7 +414,7 @@ impl<'a> Iterator for SelectIterator<'a> {
                 }
             }
         };
-        if let Some((key,cursor)) = self.stack.pop() {
+        while let Some((key,cursor)) = self.stack.pop() {
             if let Some(parent) = self.document.get_elementdata(key) {
                 if let Some(item) = parent.get_data_at(cursor) {
                     //increment the cursor and push back to the stack
@@ -451,14 +451,12 @@ impl<'a> Iterator for SelectIterator<'a> {
                         }
                     }
                 }
-                self.next() //recurse
             } else {
                 unreachable!("selector tried to get an element which no longer exists")
             }
-        } else {
-            //stack is empty, we are done (None stops iteration)
-            None
         }
+        //stack is empty, we are done (None stops iteration)
+        None
     }
 
 }
@@ -587,21 +585,16 @@ impl<'a> Iterator for SelectElementsIterator<'a> {
     type Item = SelectElementsItem<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let selectitem = self.iterator.next();
-        if let Some(selectitem) = selectitem {
+        while let Some(selectitem) = self.iterator.next() {
             match *selectitem {
                 DataType::Element(key) | DataType::SpanReference(key) => {
                     let element = self.iterator.document.get_element(key).expect("Getting key from elementstore for SelectElementsIterator");
-                    Some(Self::Item { element: element })
+                    return Some(Self::Item { element: element });
                 },
-                _ => {
-                    //recurse
-                    self.next()
-                }
+                _ => {}
             }
-        } else {
-            None
         }
+        None
     }
 
 }
-- 
2.43.0


From d006aa1ebe84c6c1ca6824d1d4557c6bb096a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:34 +0000
Subject: [PATCH 29/29] fix: the class of a feature without a subset read back
 as another class of the set

---
 src/document.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index a7c0deb..e7d6984 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -886,12 +886,15 @@ impl Store<ElementData,ElementKey> for Document {
                         declaration_key  = Some(deckey);
 
                         if let Some(declaration) = self.get_mut_declaration(deckey) {
-                            if let Ok(Some(class)) = element.class() {
-                                class_key = Some(declaration.add_subclass(Cow::Borrowed(class))?);
-                            }
                             if let Ok(Some(subset)) = element.subset() {
                                 subset_key = Some(declaration.add_subset(Cow::Borrowed(subset))?);
                             }
+                            if let Ok(Some(class)) = element.class() {
+                                class_key = Some(match subset_key {
+                                    Some(_) => declaration.add_subclass(Cow::Borrowed(class))?,
+                                    None => declaration.add_class(Cow::Borrowed(class))?, //without a subset it is a normal class
+                                });
+                            }
                         }
 
 
-- 
2.43.0

