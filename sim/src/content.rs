//! What units say of themselves: libraries in which every optional part of every unit varies, and what must be seen of it.
use crate::exec::*;
use crate::rng::hash_bytes;
use crate::spec::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;
use crate::oracle::json_diff;
use trane::{course_library::CourseLibrary, scheduler::ExerciseScheduler, Trane};

/// What a part of a manifest must be.
pub enum Want {
    Is(Value),
    /// A file, given by an absolute path; with its text.
    File(String, String),
    /// A text in which these occur in this order.
    Text(Vec<String>),
    /// A list of which the order does not matter.
    Set(Vec<Value>),
}
use Want::*;

#[derive(Default)]
pub struct Contents {
    /// Files written over those of the library; without a text, removed.
    pub files: Vec<(String, Option<String>)>,
    /// For each unit, what the parts of its manifest must be, by JSON pointer.
    pub want: BTreeMap<String, Vec<(String, Want)>>,
    salt: u64,
}
impl Contents {
    fn pick(&self, of: &str, n: u64) -> u64 {
        (hash_bytes(format!("{of}/{}", self.salt).as_bytes()) >> 7) % n
    }
    fn words(&self, what: &str, id: &str) -> String {
        let tail = ["", "\n", " \"quoted\"", "\n\nmore é\n", "  ", "\t\\"][self.pick(&format!("words{what}{id}"), 6) as usize];
        format!("{what} of {id}{tail}")
    }
    fn put(&mut self, rel: String, t: String) {
        self.files.push((rel, Some(t)));
    }
    fn want(&mut self, id: &str, at: &str, w: Want) {
        self.want.entry(id.into()).or_default().push((at.into(), w));
    }
    /// A part that may be there or not.
    fn maybe(&mut self, v: &mut Value, id: &str, key: &str, none: Value) -> Option<String> {
        let t = self.words(key, id);
        let got = match self.pick(&format!("{key}{id}"), 4) {
            0 => {
                v.as_object_mut().unwrap().remove(key);
                None
            }
            1 if key == "description" => Some(String::new()),
            _ => Some(t),
        };
        if let Some(t) = &got {
            v[key] = json!(t);
        }
        self.want(id, &format!("/{key}"), Is(got.as_ref().map_or(none, |t| json!(t))));
        got
    }
    /// Instructions or material: none, inlined, or a file in the directory, above it or below it.
    fn asset(&mut self, v: &mut Value, id: &str, key: &str, dir: &str) {
        let t = self.words(key, id);
        match self.pick(&format!("{key}{id}"), 6) {
            0 => {
                v.as_object_mut().unwrap().remove(key);
                self.want(id, &format!("/{key}"), Is(json!(null)));
            }
            1 => {
                v[key] = json!({"InlinedAsset": {"content": t}});
                self.want(id, &format!("/{key}"), Is(v[key].clone()));
            }
            k => {
                let (rel, file) = if k == 2 { (format!("{key}.md"), format!("{dir}/{key}.md")) } else if k == 3 { (format!("{}/{dir}/{key}.md", crate::interpose::VROOT), format!("{dir}/{key}.md")) } else if k == 4 { (format!("./sub/../sub/{key}.md"), format!("{dir}/sub/{key}.md")) } else { let n = format!("{key}-{:x}.md", hash_bytes(id.as_bytes())); (format!("../{n}"), Path::new(dir).parent().unwrap().join(n).display().to_string()) };
                v[key] = json!({"MarkdownAsset": {"path": rel}});
                self.put(file.clone(), t.clone());
                self.want(id, &format!("/{key}/MarkdownAsset/path"), File(file, t));
            }
        }
    }
    fn exercise(&mut self, c: &CourseSpec, l: &LessonSpec, e: &ExSpec, dir: &str) {
        let id = &e.id;
        let front = self.words("front", id);
        let back = self.words("back", id);
        let a = "/exercise_asset";
        let asset = match self.pick(&format!("asset{id}"), 9) {
            0 => json!({"BasicAsset": {"InlinedAsset": {"content": front}}}),
            1 => {
                self.put(format!("{dir}/some.md"), front.clone());
                self.want(id, &format!("{a}/BasicAsset/MarkdownAsset/path"), File(format!("{dir}/some.md"), front));
                json!({"BasicAsset": {"MarkdownAsset": {"path": "some.md"}}})
            }
            k @ (2 | 3) => {
                let up = Path::new(dir).parent().unwrap().display().to_string();
                let n = format!("f-{:x}.md", hash_bytes(id.as_bytes()));
                self.put(format!("{up}/{n}"), front.clone());
                self.want(id, &format!("{a}/FlashcardAsset/front_path"), File(format!("{up}/{n}"), front));
                if k == 2 {
                    self.put(format!("{dir}/b/back.md"), back.clone());
                    self.want(id, &format!("{a}/FlashcardAsset/back_path"), File(format!("{dir}/b/back.md"), back));
                    json!({"FlashcardAsset": {"front_path": format!("../{n}"), "back_path": "b/back.md"}})
                } else {
                    self.want(id, &format!("{a}/FlashcardAsset/back_path"), Is(json!(null)));
                    json!({"FlashcardAsset": {"front_path": format!("../{n}")}})
                }
            }
            4 => json!({"InlineFlashcardAsset": {"front_content": front, "back_content": back}}),
            5 => {
                self.want(id, &format!("{a}/InlineFlashcardAsset/back_content"), Is(json!(null)));
                self.want(id, &format!("{a}/InlineFlashcardAsset/front_content"), Is(json!(front)));
                json!({"InlineFlashcardAsset": {"front_content": front}})
            }
            6 => json!({"LiteracyAsset": {"lesson_type": if e.proc { "Dictation" } else { "Reading" }, "examples": [[front, back], ["other", null]], "exceptions": []}}),
            7 => {
                self.put(format!("{dir}/notes.xml"), back.clone());
                self.want(id, &format!("{a}/SoundSliceAsset/backup"), File(format!("{dir}/notes.xml"), back));
                self.want(id, &format!("{a}/SoundSliceAsset/link"), Is(json!(format!("https://example.org/{id}"))));
                self.want(id, &format!("{a}/SoundSliceAsset/description"), Is(json!(front)));
                json!({"SoundSliceAsset": {"link": format!("https://example.org/{id}"), "description": front, "backup": "notes.xml"}})
            }
            _ => json!({"TranscriptionAsset": {"content": front, "external_link": {"YouTube": format!("https://example.org/{id}")}}}),
        };
        if !asset.to_string().contains("path") && !self.want.get(id).is_some_and(|w| w.iter().any(|w| w.0.starts_with(a))) {
            self.want(id, a, Is(asset.clone()));
        }
        let mut v = ex_json(c, l, e, asset);
        self.maybe(&mut v, id, "name", json!(""));
        self.maybe(&mut v, id, "description", json!(null));
        self.want(id, "/exercise_type", Is(v["exercise_type"].clone()));
        self.put(format!("{dir}/exercise_manifest.json"), v.to_string());
    }
    fn course(&mut self, c: &CourseSpec, v: &mut Value) -> String {
        let named = matches!(c.kind, Kind::Music { .. } | Kind::Transcription(_));
        let name = if named {
            self.want(&c.id, "/name", Is(v["name"].clone()));
            v["name"].as_str().unwrap().to_string()
        } else {
            self.maybe(v, &c.id, "name", json!("")).unwrap_or_default()
        };
        self.maybe(v, &c.id, "description", json!(null));
        let authors = match self.pick(&format!("authors{}", c.id), 3) {
            0 => json!(null),
            1 => json!([]),
            _ => json!(["someone", "é, \"x\"", "someone"]),
        };
        v["authors"] = authors.clone();
        self.want(&c.id, "/authors", Is(authors));
        self.asset(v, &c.id, "course_material", &c.dir);
        self.asset(v, &c.id, "course_instructions", &c.dir);
        name
    }
    /// A text in a file of its own, where there may be none.
    fn side(&mut self, id: &str, what: &str, file: String, as_json: bool) -> Option<String> {
        if self.pick(&format!("side{what}{id}"), 3) == 0 {
            self.files.push((file, None));
            return None;
        }
        let t = self.words(what, id);
        self.put(file, if as_json { json!(t).to_string() } else { t.clone() });
        Some(t)
    }
    fn kb(&mut self, c: &CourseSpec, inlined: bool) {
        for l in &c.lessons {
            let ld = format!("{}/{}.lesson", c.dir, l.dir);
            let id = &l.id;
            let name = self.side(id, "name", format!("{ld}/lesson.name.json"), true);
            self.want(id, "/name", Is(json!(name.unwrap_or(format!("Lesson {}", l.dir)))));
            let d = self.side(id, "description", format!("{ld}/lesson.description.json"), true);
            self.want(id, "/description", Is(json!(d)));
            for k in ["instructions", "material"] {
                let file = format!("{ld}/lesson.{k}.md");
                match self.side(id, k, file.clone(), false) {
                    Some(t) => self.want(id, &format!("/lesson_{k}/MarkdownAsset/path"), File(file, t)),
                    None => self.want(id, &format!("/lesson_{k}"), Is(json!(null))),
                }
            }
            let of = |k: u64| ["Procedural", "Declarative"][k as usize % 2];
            let k = self.pick(&format!("default{id}"), 4);
            let default = if k < 2 {
                self.put(format!("{ld}/lesson.default_exercise_type.json"), json!(of(k)).to_string());
                of(k)
            } else {
                "Procedural"
            };
            for e in &l.exs {
                let f = |x: &str| format!("{ld}/{}.{x}", e.dir);
                let name = self.side(&e.id, "name", f("name.json"), true);
                self.want(&e.id, "/name", Is(json!(name.unwrap_or(format!("Exercise {}", e.dir)))));
                let d = self.side(&e.id, "description", f("description.json"), true);
                self.want(&e.id, "/description", Is(json!(d)));
                let k = self.pick(&format!("type{}", e.id), 4);
                if k < 2 {
                    self.put(f("type.json"), json!(of(k)).to_string());
                } else {
                    self.files.push((f("type.json"), None));
                }
                self.want(&e.id, "/exercise_type", Is(json!(if k < 2 { of(k) } else { default })));
                let front = self.words("front", &e.id);
                self.put(f("front.md"), front.clone());
                let back = self.side(&e.id, "back", f("back.md"), false);
                if inlined {
                    self.want(&e.id, "/exercise_asset", Is(json!({"InlineFlashcardAsset": {"front_content": front, "back_content": back}})));
                } else {
                    self.want(&e.id, "/exercise_asset/FlashcardAsset/front_path", File(f("front.md"), front));
                    match back {
                        Some(t) => self.want(&e.id, "/exercise_asset/FlashcardAsset/back_path", File(f("back.md"), t)),
                        None => self.want(&e.id, "/exercise_asset/FlashcardAsset/back_path", Is(json!(null))),
                    }
                }
            }
        }
    }
    fn literacy(&mut self, c: &CourseSpec, name: &str, dictation: bool) {
        // Instructions in a file of their own come before those of the manifest.
        if let Some(t) = self.side(&c.id, "instructions", format!("{}/course.instructions.md", c.dir), false) {
            self.want.get_mut(&c.id).unwrap().retain(|w| !w.0.starts_with("/course_instructions"));
            self.want(&c.id, "/course_instructions", Is(json!({"InlinedAsset": {"content": t}})));
        }
        let of = if name.is_empty() { &c.id } else { name };
        for l in &c.lessons {
            let ld = format!("{}/{}.lesson", c.dir, l.dir);
            let name = self.side(&l.id, "name", format!("{ld}/lesson.name.json"), true).unwrap_or(l.dir.clone());
            let d = self.side(&l.id, "description", format!("{ld}/lesson.description.json"), true);
            let i = self.side(&l.id, "instructions", format!("{ld}/lesson.instructions.md"), false);
            let mut lists = [vec![], vec![]];
            for f in ["a.example.md", "b.example.md", "a.answer.md", "z.exception.md", "simple_examples.md"] {
                self.files.push((format!("{ld}/{f}"), None));
            }
            for (n, (what, answer)) in [("example", "answer"), ("exception", "exception_answer")].into_iter().enumerate() {
                for k in 0..self.pick(&format!("n{what}{}", l.id), 4) {
                    let t = self.words(&format!("{what} {k}"), &l.id);
                    let x = ["a", "b.c", "z-1", "q"][k as usize];
                    self.put(format!("{ld}/{x}.{what}.md"), t.clone());
                    let a = self.side(&l.id, &format!("{answer} {k}"), format!("{ld}/{x}.{answer}.md"), false);
                    lists[n].push(json!([t, a]));
                }
                if self.pick(&format!("simple{what}{}", l.id), 2) == 0 {
                    self.put(format!("{ld}/simple_{what}s.md"), format!("  one {what}\n\ntwo {what} \r\n\t\n"));
                    lists[n].extend([json!([format!("one {what}"), null]), json!([format!("two {what}"), null])]);
                }
                if self.pick(&format!("yaml{what}{}", l.id), 2) == 0 {
                    self.put(format!("{ld}/simple_{what}s_with_answers.yaml"), format!("- {what}: \"first {what}\"\n  answer: \"the answer\"\n- {what}: \"last {what}\"\n"));
                    lists[n].extend([json!([format!("first {what}"), "the answer"]), json!([format!("last {what}"), null])]);
                }
                // An answer to nothing is none.
                self.put(format!("{ld}/stray.{answer}.md"), "x".into());
            }
            for ty in if dictation { &["Reading", "Dictation"][..] } else { &["Reading"] } {
                let id = format!("{}::{}", l.id.strip_suffix("::reading").unwrap(), ty.to_lowercase());
                let ex = format!("{id}::exercise");
                let full = json!(format!("{of} - {name} - {ty}"));
                for x in [&id, &ex] {
                    self.want(x, "/name", Is(full.clone()));
                    self.want(x, "/description", Is(json!(d)));
                }
                self.want(&id, "/lesson_instructions", Is(i.as_ref().map_or(json!(null), |t| json!({"InlinedAsset": {"content": t}}))));
                self.want(&ex, "/exercise_type", Is(json!("Procedural")));
                self.want(&ex, "/exercise_asset/LiteracyAsset/lesson_type", Is(json!(ty)));
                self.want(&ex, "/exercise_asset/LiteracyAsset/examples", Set(lists[0].clone()));
                self.want(&ex, "/exercise_asset/LiteracyAsset/exceptions", Set(lists[1].clone()));
            }
        }
    }
    fn music(&mut self, c: &CourseSpec, name: &str, paths: &[Vec<usize>], slice: bool) {
        for p in paths.iter().chain([&vec![]]) {
            let id = p.iter().fold(format!("{}::0", c.id), |s, i| format!("{s}::{i}"));
            let ex = format!("{id}::exercise");
            self.want(&id, "/name", Is(json!(name)));
            self.want(&ex, "/name", Is(json!(name)));
            let mut t = vec![format!("from {p:?}"), format!("to {p:?}")];
            if slice {
                self.want(&ex, "/exercise_asset/SoundSliceAsset/link", Is(json!("https://example.org/1")));
                self.want(&ex, "/exercise_asset/SoundSliceAsset/description", Text(t));
            } else {
                t.push("sheet.pdf".into());
                self.want(&ex, "/exercise_asset/BasicAsset/InlinedAsset/content", Text(t));
            }
        }
    }
    fn transcription(&mut self, c: &CourseSpec, v: &mut Value, name: &str, t: &Trans) {
        if v.get("course_instructions").is_none() {
            self.want.get_mut(&c.id).unwrap().retain(|w| !w.0.starts_with("/course_instructions"));
            self.want(&c.id, "/course_instructions/InlinedUniqueAsset/content", Text(vec!["ranscri".into()]));
        }
        let mut inlined = vec![];
        let mut all = vec![];
        for (k, p) in t.files.iter().chain(&t.inlined).enumerate() {
            let mut j = p.json();
            let x = &mut j["asset"]["Track"];
            let mut said = vec![format!("Track {}", p.id)];
            for f in ["artist_name", "album_name", "duration"] {
                x.as_object_mut().unwrap().remove(f);
                if self.pick(&format!("{f}{}{}", c.id, p.id), 3) > 0 {
                    x[f] = json!(format!("the {f} of {}", p.id));
                    said.push(format!("the {f} of {}", p.id));
                }
            }
            let link = (self.pick(&format!("link{}{}", c.id, p.id), 2) == 0).then(|| format!("https://example.org/{}", p.id));
            if let Some(l) = &link {
                x["external_link"] = json!({"YouTube": l});
                said.push(l.clone());
            }
            if k < t.files.len() {
                self.put(format!("{}/passages/{}.{}", c.dir, p.id, if p.id == "t1" { "JSON" } else { "json" }), j.to_string());
            } else {
                inlined.push(j);
            }
            all.push((p, said, link));
        }
        v["generator_config"]["Transcription"]["inlined_passages"] = json!(inlined);
        let mut lessons: Vec<(String, String, Option<String>, bool)> = vec![("singing".into(), "Singing".into(), None, !t.no_singing)];
        if !t.no_advanced {
            lessons.push(("advanced_singing".into(), "Advanced Singing".into(), None, !t.no_singing));
        }
        for i in &t.instruments {
            lessons.push((format!("transcription::{i}"), format!("Transcription - the {i}"), Some(format!("the {i}")), true));
            if !t.no_advanced {
                lessons.push((format!("advanced_transcription::{i}"), format!("Advanced Transcription - the {i}"), Some(format!("the {i}")), true));
            }
        }
        for (l, title, instrument, full) in lessons {
            let id = format!("{}::{l}", c.id);
            let title = json!(format!("{name} - {title}"));
            self.want(&id, "/name", Is(title.clone()));
            self.want(&id, "/description", Text(vec!["assage".into()]));
            self.want(&id, "/lesson_instructions/InlinedUniqueAsset/content", Text(vec!["assage".into()]));
            for (p, said, link) in all.iter().filter(|_| full) {
                let mut at: Vec<(String, String, String)> = p.intervals.iter().map(|i| (format!("{id}::{}::{i}", p.id), format!("{i}:00"), format!("{i}:10"))).collect();
                if at.is_empty() {
                    at.push((format!("{id}::{}", p.id), "Start of passage".into(), "End of passage".into()));
                }
                for (ex, a, b) in at {
                    let text: Vec<String> = said.iter().cloned().chain([a, b]).chain(instrument.clone()).collect();
                    self.want(&ex, "/name", Is(title.clone()));
                    self.want(&ex, "/exercise_asset/TranscriptionAsset/content", Text(text));
                    self.want(&ex, "/exercise_asset/TranscriptionAsset/external_link", Is(link.as_ref().map_or(json!(null), |l| json!({"YouTube": l}))));
                }
            }
        }
    }
    pub fn of(lib: &LibSpec, salt: u64) -> Contents {
        let mut x = Contents { salt, ..Default::default() };
        for c in &lib.courses {
            let mut v = course_json(c);
            let name = x.course(c, &mut v);
            match &c.kind {
                Kind::Plain => {
                    for l in &c.lessons {
                        let ld = format!("{}/{}", c.dir, l.dir);
                        let mut v = lesson_json(c, l);
                        x.maybe(&mut v, &l.id, "name", json!(""));
                        x.maybe(&mut v, &l.id, "description", json!(null));
                        x.asset(&mut v, &l.id, "lesson_instructions", &ld);
                        x.asset(&mut v, &l.id, "lesson_material", &ld);
                        x.put(format!("{ld}/lesson_manifest.json"), v.to_string());
                        for e in &l.exs {
                            x.exercise(c, l, e, &format!("{ld}/{}", e.dir));
                        }
                    }
                }
                Kind::Kb { inlined } => x.kb(c, *inlined),
                Kind::Literacy { dictation } => x.literacy(c, &name, *dictation),
                Kind::Music { paths, slice } => x.music(c, &name, paths, *slice),
                Kind::Transcription(t) => x.transcription(c, &mut v, &name, t),
            }
            x.put(format!("{}/course_manifest.json", c.dir), v.to_string());
        }
        x
    }
    pub fn write(&self, root: &Path) {
        for (rel, t) in &self.files {
            match t {
                Some(t) => put_text(root, rel, t),
                None => {
                    let _ = std::fs::remove_file(root.join(rel));
                }
            }
        }
    }
}

/// Every unit as the instance presents it.
pub fn contents(c: &mut Ctx, op: u32) -> R {
    let Some(salt) = c.plan.lib.rich else { return Ok(json!(0)) };
    let want = Contents::of(&c.plan.lib, salt).want;
    let t = c.trane();
    let mut n = 0u64;
    for (id, parts) in &want {
        let u = us(id);
        let m = match c.m.u.get(id).map(|u| u.ty) {
            Some('c') => serde_json::to_value(t.get_course_manifest(u).as_deref()),
            Some('l') => serde_json::to_value(t.get_lesson_manifest(u).as_deref()),
            Some(_) => serde_json::to_value(t.get_exercise_manifest(u).as_deref()),
            None => panic!("{id} is not in the model"),
        }
        .unwrap();
        if m.is_null() {
            violation(&c.plan.prop, op, format!("{id} is on disk but not in the library"));
            return Ok(json!(n));
        }
        for (at, w) in parts {
            n += 1;
            let got = m.pointer(at).cloned().unwrap_or_default();
            let bad = match w {
                Is(v) => (got != *v).then(|| format!("instead of {v}")),
                Text(words) => {
                    let mut rest = got.as_str().unwrap_or_default();
                    words.iter().find(|x| match rest.find(x.as_str()) {
                        Some(i) => {
                            rest = &rest[i + x.len()..];
                            false
                        }
                        None => true,
                    }).map(|x| format!("without {x:?} where it belongs"))
                }
                Set(v) => {
                    let sorted = |v: &[Value]| { let mut v: Vec<String> = v.iter().map(|x| x.to_string()).collect(); v.sort(); v };
                    (sorted(got.as_array().map_or(&[][..], |v| v)) != sorted(v)).then(|| format!("instead of {}", json!(v)))
                }
                File(rel, text) => {
                    let p = Path::new(got.as_str().unwrap_or_default()).to_path_buf();
                    calmly(|| {
                        if !p.is_absolute() {
                            Some("is no absolute path".to_string())
                        } else if std::fs::canonicalize(&p).ok() != std::fs::canonicalize(vroot().join(rel)).ok() {
                            Some(format!("is not the path of {rel}"))
                        } else if std::fs::read_to_string(&p).ok().as_ref() != Some(text) {
                            Some(format!("is not the path of a file with the text {text:?}"))
                        } else {
                            None
                        }
                    })
                }
            };
            if let Some(x) = bad {
                violation(&c.plan.prop, op, format!("{id} has {got} for {} {x}", &at[1..]));
                return Ok(json!(n));
            }
        }
    }
    c.probes += n;
    Ok(json!(n))
}

/// The instance opened by a path written in some way against one opened by the plain path.
pub fn world(c: &mut Ctx, op: u32) -> R {
    let prop = c.plan.prop.clone();
    c.probes += 1;
    let t = c.trane();
    t.invalidate_cached_scores_with_prefix("");
    let see = |t: &Trane| -> R {
        let scores: BTreeMap<&String, Option<f32>> = c.m.u.keys().map(|id| (id, t.get_unit_score(us(id)).ok().flatten())).collect();
        Ok(json!({"library": lib_dump(t), "practice": dump(t, c.plan, &c.m)?, "scores": scores}))
    };
    // Absolute paths of the same file may be written in several ways.
    fn flat(v: &mut Value) {
        match v {
            Value::String(s) if s.starts_with(crate::interpose::VROOT) => {
                let mut parts: Vec<&str> = vec![];
                for x in s.split('/').filter(|x| !x.is_empty() && *x != ".") {
                    if x == ".." { parts.pop(); } else { parts.push(x) }
                }
                *s = format!("/{}", parts.join("/"));
            }
            Value::Array(a) => a.iter_mut().for_each(flat),
            Value::Object(o) => o.values_mut().for_each(flat),
            _ => {}
        }
    }
    // Scores may be summed in another order.
    fn close(a: &Value, b: &Value) -> bool {
        match (a, b) {
            (Value::Number(x), Value::Number(y)) if x.is_f64() && y.is_f64() => (x.as_f64().unwrap() - y.as_f64().unwrap()).abs() < 1e-4,
            (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| close(x, y)),
            (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| close(v, w))),
            _ => a == b,
        }
    }
    let see = |t: &Trane| see(t).map(|mut v| { flat(&mut v); v });
    let how = format!("{:?}", c.s.path);
    let got = see(t)?;
    match observe(see) {
        None => violation(&prop, op, format!("what was opened by {how} does not open by its plain path")),
        Some(want) => {
            let want = want?;
            if !close(&got, &want) {
                violation(&prop, op, format!("opened by {how} it is not the same: {}", json_diff(&want, &got, "")));
            }
        }
    }
    fn stray(d: &Path, top: bool, out: &mut Vec<String>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let (p, n) = (e.path(), e.file_name());
            if n == ".trane" && !top || n == "practice_stats.db" || n == ".outside" {
                out.push(p.display().to_string());
            } else if p.is_dir() && n != ".trane" {
                stray(&p, false, out);
            }
        }
    }
    let mut out = vec![];
    calmly(|| stray(vroot(), true, &mut out));
    if let Some(x) = out.first() {
        violation(&prop, op, format!("opened by {how} it keeps data outside of its root: {x}"));
    }
    Ok(json!(null))
}
