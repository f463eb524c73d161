//! Descriptions of course libraries: random generation, writing to disk, and the reference model of
//! what opening one must yield. Nothing here uses the code under test.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub type Meta = BTreeMap<String, Vec<String>>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Plain,
    Kb { inlined: bool },
    Literacy { dictation: bool },
    /// The sub-passages of the piece: each path below the whole piece.
    Music { paths: Vec<Vec<usize>>, slice: bool },
    Transcription(Box<Trans>),
}
/// A course of passages to transcribe.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Trans {
    /// Other transcription courses to be learnt before.
    pub deps: Vec<String>,
    /// Passages in files of their own, and in the manifest.
    pub files: Vec<Pass>,
    pub inlined: Vec<Pass>,
    pub no_singing: bool,
    pub no_advanced: bool,
    /// The instruments of the student, as in the preferences.
    pub instruments: Vec<String>,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Pass {
    pub id: String,
    pub artist: Option<String>,
    pub album: Option<String>,
    pub intervals: Vec<usize>,
}
impl Pass {
    pub fn json(&self) -> Value {
        let iv: serde_json::Map<String, Value> = self.intervals.iter().map(|i| (i.to_string(), json!([format!("{i}:00"), format!("{i}:10")]))).collect();
        json!({"asset": {"Track": {"short_id": self.id, "track_name": format!("Track {}", self.id), "artist_name": self.artist, "album_name": self.album}}, "intervals": iv})
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ExSpec {
    pub dir: String,
    pub id: String,
    pub proc: bool,
    /// 0 inlined, 1 markdown file, 2 flashcard files
    pub asset: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LessonSpec {
    /// Directory; for generated courses, the short identifier.
    pub dir: String,
    pub id: String,
    pub deps: Vec<String>,
    pub enc: Vec<(String, f32)>,
    pub sup: Vec<String>,
    pub meta: Option<Meta>,
    pub exs: Vec<ExSpec>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CourseSpec {
    pub dir: String,
    pub id: String,
    pub kind: Kind,
    pub deps: Vec<String>,
    pub enc: Vec<(String, f32)>,
    pub sup: Vec<String>,
    pub meta: Option<Meta>,
    pub lessons: Vec<LessonSpec>,
}
/// A file written over what the library holds otherwise, to make it inconsistent.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Defect {
    pub what: String,
    pub files: Vec<(String, String)>,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct LibSpec {
    pub courses: Vec<CourseSpec>,
    /// Courses on disk below ignored paths.
    pub hidden: Vec<CourseSpec>,
    pub ignored: Vec<String>,
    /// Files that are not part of any course.
    pub decoys: Vec<String>,
    /// Saved filters and study sessions: file name and content.
    pub filters: Vec<(String, Value)>,
    pub sessions: Vec<(String, Value)>,
    pub batch_size: Option<usize>,
    pub defect: Option<Defect>,
    /// Whether preferences are on disk before the first open.
    pub write_prefs: bool,
    /// Instruments named in the preferences.
    #[serde(default)]
    pub instruments: Vec<String>,
    /// Every optional part of every unit varies.
    #[serde(default)]
    pub rich: Option<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Unit {
    pub id: String,
    pub ty: char,
    pub lesson: String,
    pub course: String,
    pub deps: BTreeSet<String>,
    pub enc: Vec<(String, f32)>,
    pub sup: BTreeSet<String>,
    pub meta: Meta,
    pub has_meta: bool,
    pub kids: Vec<String>,
    pub proc: bool,
}
/// What the library must look like once opened.
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub u: BTreeMap<String, Unit>,
    pub sup_by: BTreeMap<String, BTreeSet<String>>,
    pub dependents: BTreeMap<String, BTreeSet<String>>,
    pub starting: BTreeMap<String, BTreeSet<String>>,
    /// Whether some manifest lists encompassed units explicitly.
    pub explicit_enc: bool,
}

#[derive(Clone, Copy, Default)]
pub struct GenOpts {
    pub generated: bool,
    pub tricky: bool,
    pub hidden: bool,
    pub max_courses: usize,
    pub max_lessons: usize,
    pub max_exs: usize,
    pub missing: bool,
    pub supersede: f64,
    pub encompass: f64,
    pub meta: bool,
    pub empty: bool,
    pub saved: bool,
    /// Wide libraries: many independent lessons, to fill batches.
    pub wide: bool,
}

const TRICKY: [&str; 12] = ["c_1", "cx1", "C_1", "c%1", "c_", "c", "c_1a", "cab1", "c'q", "c-1", "é1", "c_1::l"];

fn meta(g: &mut Rng) -> Option<Meta> {
    if g.chance(0.15) {
        return None;
    }
    let mut m = Meta::new();
    for k in ["k1", "k2"] {
        if g.chance(0.7) {
            let mut v = vec![];
            for x in ["a", "b", "c"] {
                if g.chance(0.4) {
                    v.push(x.to_string());
                }
            }
            m.insert(k.to_string(), v);
        }
    }
    Some(m)
}
pub fn weight(g: &mut Rng) -> f32 {
    *g.pick(&[0.0, 0.1, 0.3, 0.5, 0.75, 1.0, 1.0])
}

pub fn gen(g: &mut Rng, o: GenOpts) -> LibSpec {
    let mut lib = LibSpec { write_prefs: g.chance(0.7), ..Default::default() };
    if o.generated && g.chance(0.5) {
        lib.instruments = ["piano", "sax", "oud"].iter().filter(|_| g.chance(0.5)).map(|x| x.to_string()).collect();
        lib.write_prefs |= !lib.instruments.is_empty();
    }
    let nc = 1 + g.below(o.max_courses.max(1));
    let mut tricky: Vec<&str> = TRICKY.to_vec();
    g.shuffle(&mut tricky);
    // Units that may be referred to so far.
    let mut courses: Vec<String> = vec![];
    let mut lessons: Vec<String> = vec![];
    for c in 0..nc {
        let id = if o.tricky && c < tricky.len() { tricky[c].to_string() } else { format!("c{c}") };
        let depth = g.below(3);
        let mut dir = String::new();
        for d in 0..depth {
            dir.push_str(&format!("n{}/", (c + d) % 3));
        }
        dir.push_str(&format!("d{c}"));
        let kind = if o.generated && g.chance(0.6) {
            match g.below(8) {
                0..=2 => Kind::Kb { inlined: g.chance(0.4) },
                3..=5 => Kind::Literacy { dictation: g.chance(0.6) },
                6 => music(g),
                _ => transcription(g, &lib, o.missing),
            }
        } else {
            Kind::Plain
        };
        let mut cs = CourseSpec { dir, id: id.clone(), kind: kind.clone(), deps: vec![], enc: vec![], sup: vec![], meta: if o.meta { meta(g) } else { None }, lessons: vec![] };
        let pdep = if o.wide { 0.15 } else { 0.5 };
        for d in &courses {
            if g.chance(pdep / (courses.len() as f64).max(1.5) * 1.2) {
                cs.deps.push(d.clone());
            }
        }
        if !lessons.is_empty() && g.chance(0.08) {
            cs.deps.push(g.pick(&lessons).clone());
        }
        if o.missing && g.chance(0.12) {
            cs.deps.push(format!("missing{c}"));
        }
        if o.supersede > 0.0 && !courses.is_empty() && g.chance(o.supersede * 0.5) {
            cs.sup.push(g.pick(&courses).clone());
        }
        if o.encompass > 0.0 && g.chance(o.encompass * 0.5) {
            for _ in 0..1 + g.below(2) {
                let t = if g.chance(0.5) && !lessons.is_empty() { g.pick(&lessons).clone() } else if !courses.is_empty() { g.pick(&courses).clone() } else { continue };
                if !cs.enc.iter().any(|e| e.0 == t) {
                    let w = weight(g);
                    cs.enc.push((t, w));
                }
            }
        }
        let nl = if o.empty && g.chance(0.07) { 0 } else { 1 + g.below(o.max_lessons.max(1)) };
        let mut mine: Vec<String> = vec![];
        if matches!(kind, Kind::Music { .. } | Kind::Transcription(_)) {
            mine = Model::of_courses(std::slice::from_ref(&cs)).u[&id].kids.clone();
        } else {
            for l in 0..nl {
                let short = if o.tricky && g.chance(0.4) { (*g.pick(&["l_0", "lx0", "L_0", "l%", "l", "l_"])).to_string() + &l.to_string() } else { format!("l{l}") };
                let lid = match kind {
                    Kind::Literacy { .. } => format!("{id}::{short}::reading"),
                    _ => format!("{id}::{short}"),
                };
                let mut ls = LessonSpec { dir: short.clone(), id: lid.clone(), deps: vec![], enc: vec![], sup: vec![], meta: if o.meta && !matches!(kind, Kind::Literacy { .. }) { meta(g) } else { None }, exs: vec![] };
                let pin = if o.wide { 0.25 } else { 0.55 };
                for d in &mine {
                    if g.chance(pin / (mine.len() as f64).max(1.3)) {
                        ls.deps.push(d.clone());
                    }
                }
                if g.chance(0.12) && !lessons.is_empty() {
                    ls.deps.push(g.pick(&lessons).clone());
                }
                if g.chance(0.08) && !courses.is_empty() {
                    ls.deps.push(g.pick(&courses).clone());
                }
                if o.missing && g.chance(0.08) {
                    ls.deps.push(format!("missing::{c}::{l}"));
                }
                ls.deps.sort();
                ls.deps.dedup();
                if o.supersede > 0.0 && g.chance(o.supersede) {
                    let pool: Vec<&String> = mine.iter().chain(lessons.iter()).collect();
                    if !pool.is_empty() {
                        ls.sup.push((*g.pick(&pool)).clone());
                    }
                    if g.chance(0.15) && !courses.is_empty() {
                        ls.sup.push(g.pick(&courses).clone());
                    }
                }
                if o.encompass > 0.0 && g.chance(o.encompass) {
                    for _ in 0..1 + g.below(2) {
                        let mut pool: Vec<&String> = mine.iter().chain(lessons.iter()).collect();
                        pool.extend(courses.iter());
                        if !pool.is_empty() {
                            let t = (*g.pick(&pool)).clone();
                            if !ls.enc.iter().any(|e| e.0 == t) {
                                let w = weight(g);
                                ls.enc.push((t, w));
                            }
                        }
                    }
                }
                let ne = if matches!(kind, Kind::Literacy { .. }) { 1 } else if o.empty && g.chance(0.06) { 0 } else { 1 + g.below(o.max_exs.max(1)) };
                for e in 0..ne {
                    let s = if o.tricky && g.chance(0.3) { format!("e_{e}") } else { format!("e{e}") };
                    let eid = match kind {
                        Kind::Literacy { .. } => format!("{lid}::exercise"),
                        _ => format!("{lid}::{s}"),
                    };
                    ls.exs.push(ExSpec { dir: s, id: eid, proc: g.chance(0.5), asset: if g.chance(0.7) { 0 } else { 1 + g.below(2) as u8 } });
                }
                mine.push(lid);
                cs.lessons.push(ls);
            }
        }
        // A course never depends on a lesson twice, nor on itself.
        cs.deps.sort();
        cs.deps.dedup();
        courses.push(id);
        lessons.extend(mine);
        lib.courses.push(cs);
    }
    // Encompassing an own dependency explicitly is allowed; the dependency then keeps the listed weight.
    if o.hidden {
        for h in 0..g.below(3) {
            let mut c = CourseSpec { dir: format!("hid{h}/d"), id: format!("hidden{h}"), kind: Kind::Plain, deps: vec![], enc: vec![], sup: vec![], meta: None, lessons: vec![] };
            c.lessons.push(LessonSpec { dir: "l0".into(), id: format!("hidden{h}::l0"), deps: vec![], enc: vec![], sup: vec![], meta: None, exs: vec![ExSpec { dir: "e0".into(), id: format!("hidden{h}::l0::e0"), proc: true, asset: 0 }] });
            let path = if g.chance(0.5) { format!("hid{h}") } else { format!("hid{h}/d") };
            lib.ignored.push(match g.below(8) {
                0 | 1 => format!("{path}/"),
                2 => format!("./{path}"),
                3 => path.replace('/', "//"),
                _ => path,
            });
            lib.hidden.push(c);
        }
        if g.chance(0.3) {
            lib.ignored.push("d".into());
        }
        if g.chance(0.4) {
            lib.decoys.push("README.md".into());
            lib.decoys.push("notes/todo.txt".into());
        }
        for c in &lib.courses {
            if g.chance(0.2) {
                lib.decoys.push(format!("{}/notes.txt", c.dir));
            }
            if g.chance(0.2) {
                lib.decoys.push(format!("{}/stuff/deeper/more/lesson_manifest.json", c.dir));
            }
            if !c.lessons.is_empty() && c.kind == Kind::Plain && g.chance(0.2) {
                lib.decoys.push(format!("{}/{}/a/b/exercise_manifest.json", c.dir, c.lessons[0].dir));
            }
        }
        if !lib.ignored.is_empty() {
            lib.write_prefs = true;
        }
    }
    if o.saved {
        for i in 0..g.below(4) {
            lib.filters.push((format!("f{i}.json"), json!({"id": format!("filter{i}"), "description": format!("filter {i}"), "filter": unit_filter(g, &Model::of_courses(&lib.courses), 1)})));
        }
        for i in 0..g.below(3) {
            let parts: Vec<Value> = (0..g.below(4)).map(|_| session_part(g, &Model::of_courses(&lib.courses), &lib.filters)).collect();
            lib.sessions.push((format!("s{i}.json"), json!({"id": format!("session{i}"), "description": format!("session {i}"), "parts": parts})));
        }
    }
    if g.chance(0.6) {
        lib.batch_size = Some(*g.pick(&[1, 2, 3, 5, 8, 12, 25, 50]));
        lib.write_prefs = true;
    }
    lib
}
fn music(g: &mut Rng) -> Kind {
    let mut paths: Vec<Vec<usize>> = vec![];
    for _ in 0..g.below(6) {
        let mut p = if paths.is_empty() || g.chance(0.4) { vec![] } else { g.pick(&paths).clone() };
        p.push(*g.pick(&[0, 1, 2, 7, 10]));
        if p.len() < 4 && !paths.contains(&p) {
            paths.push(p);
        }
    }
    Kind::Music { paths, slice: g.chance(0.3) }
}
fn transcription(g: &mut Rng, lib: &LibSpec, missing: bool) -> Kind {
    let mut t = Trans { no_singing: g.chance(0.2), no_advanced: g.chance(0.3), instruments: lib.instruments.clone(), ..Default::default() };
    for c in &lib.courses {
        if matches!(c.kind, Kind::Transcription(_)) && g.chance(0.6) {
            t.deps.push(c.id.clone());
        }
    }
    if missing && g.chance(0.1) {
        t.deps.push("missing".into());
    }
    for i in 0..g.below(5) {
        let name = |g: &mut Rng, v: [&str; 2]| g.chance(0.8).then(|| v[g.below(2)].to_string());
        let mut p = Pass { id: format!("t{i}"), artist: name(g, ["A", "B"]), album: name(g, ["X", "Y"]), intervals: vec![] };
        for k in [0, 1, 4] {
            if g.chance(0.4) {
                p.intervals.push(k);
            }
        }
        if g.chance(0.6) { t.files.push(p) } else { t.inlined.push(p) }
    }
    Kind::Transcription(Box::new(t))
}
fn passage_json(paths: &[Vec<usize>], at: &[usize]) -> Value {
    let mut sub = serde_json::Map::new();
    for p in paths.iter().filter(|p| p.len() == at.len() + 1 && p.starts_with(at)) {
        sub.insert(p[at.len()].to_string(), passage_json(paths, p));
    }
    json!({"start": format!("from {at:?}"), "end": format!("to {at:?}"), "sub_passages": sub})
}
pub fn session_part(g: &mut Rng, m: &Model, filters: &[(String, Value)]) -> Value {
    let d = *g.pick(&[0u32, 1, 2, 5, 10, 30]);
    match g.below(4) {
        0 => json!({"NoFilter": {"duration": d}}),
        1 if !filters.is_empty() => json!({"SavedFilter": {"filter_id": g.pick(filters).1["id"], "duration": d}}),
        _ => json!({"UnitFilter": {"filter": unit_filter(g, m, 0), "duration": d}}),
    }
}
pub fn kv_filter(g: &mut Rng, depth: usize) -> Value {
    let (key, value) = if g.chance(0.15) { *g.pick(&[("transcription_course", "true"), ("transcription_artist", "A"), ("transcription_lesson", "singing"), ("transcription_lesson", "advanced_singing"), ("instrument", "voice"), ("instrument", "sax"), ("literacy_course", "true"), ("literacy_lesson", "reading")]) } else { (*g.pick(&["k1", "k2"]), *g.pick(&["a", "b", "c"])) };
    let f = |g: &mut Rng| json!({"key": key, "value": value, "filter_type": if g.chance(0.75) { "Include" } else { "Exclude" }});
    match g.below(if depth == 0 { 2 } else { 4 }) {
        0 => json!({"CourseFilter": f(g)}),
        1 => json!({"LessonFilter": f(g)}),
        _ => {
            let n = 1 + g.below(3);
            let v: Vec<Value> = (0..n).map(|_| kv_filter(g, depth - 1)).collect();
            json!({"CombinedFilter": {"op": if g.chance(0.5) { "All" } else { "Any" }, "filters": v}})
        }
    }
}
/// `wild` also names unknown units and units of the wrong type.
pub fn unit_filter(g: &mut Rng, m: &Model, wild: usize) -> Value {
    let c: Vec<&String> = m.u.values().filter(|u| u.ty == 'c').map(|u| &u.id).collect();
    let l: Vec<&String> = m.u.values().filter(|u| u.ty == 'l').map(|u| &u.id).collect();
    let pick = |g: &mut Rng, v: &[&String]| -> Vec<String> {
        let mut r = vec![];
        for _ in 0..1 + g.below(3) {
            if wild > 0 && g.chance(0.08) {
                r.push("unknown::unit".into());
            } else if !v.is_empty() {
                r.push((*g.pick(v)).clone());
                if wild > 0 && g.chance(0.1) {
                    let x = r.last().unwrap().clone();
                    r.push(x);
                }
            }
        }
        r
    };
    match g.below(8) {
        0 | 1 => json!({"CourseFilter": {"course_ids": pick(g, &c)}}),
        2 | 3 => json!({"LessonFilter": {"lesson_ids": pick(g, &l)}}),
        4 => json!("ReviewListFilter"),
        5 => {
            let v: Vec<&String> = c.iter().chain(l.iter()).copied().collect();
            json!({"Dependents": {"unit_ids": pick(g, &v)}})
        }
        6 => {
            let v: Vec<&String> = c.iter().chain(l.iter()).copied().collect();
            json!({"Dependencies": {"unit_ids": pick(g, &v), "depth": g.below(4)}})
        }
        _ => json!({"MetadataFilter": {"filter": kv_filter(g, 2)}}),
    }
}

// ---------------------------------------------------------------- writing

fn put(root: &Path, rel: &str, v: &Value) {
    put_text(root, rel, &serde_json::to_string_pretty(v).unwrap());
}
pub fn put_text(root: &Path, rel: &str, t: &str) {
    assert!(!rel.starts_with('/'), "{rel}");
    let p = root.join(rel);
    let _ = std::fs::create_dir_all(p.parent().unwrap());
    std::fs::write(&p, t).unwrap_or_else(|e| panic!("{}: {e}", p.display()));
}
pub fn course_json(c: &CourseSpec) -> Value {
    let mut v = json!({"id": c.id, "name": format!("Course {}", c.id), "dependencies": c.deps, "superseded": c.sup, "description": format!("About {}", c.id), "authors": ["someone"]});
    if !c.enc.is_empty() {
        v["encompassed"] = json!(c.enc);
    }
    if let Some(m) = &c.meta {
        v["metadata"] = json!(m);
    }
    match &c.kind {
        Kind::Plain => {
            v["course_instructions"] = json!({"InlinedAsset": {"content": "go"}});
        }
        Kind::Kb { inlined } => v["generator_config"] = json!({"KnowledgeBase": {"inlined": inlined}}),
        Kind::Literacy { dictation } => v["generator_config"] = json!({"Literacy": {"generate_dictation": dictation}}),
        Kind::Music { paths, slice } => {
            let asset = if *slice { json!({"SoundSlice": "https://example.org/1"}) } else { json!({"LocalFile": "sheet.pdf"}) };
            v["generator_config"] = json!({"MusicPiece": {"music_asset": asset, "passages": passage_json(paths, &[])}})
        }
        Kind::Transcription(t) => {
            let dir = if t.files.is_empty() { "" } else { "passages" };
            let inl: Vec<Value> = t.inlined.iter().map(|p| p.json()).collect();
            v["generator_config"] = json!({"Transcription": {"transcription_dependencies": t.deps, "passage_directory": dir, "inlined_passages": inl, "skip_singing_lessons": t.no_singing, "skip_advanced_lessons": t.no_advanced}})
        }
    }
    v
}
pub fn lesson_json(c: &CourseSpec, l: &LessonSpec) -> Value {
    let mut v = json!({"id": l.id, "dependencies": l.deps, "superseded": l.sup, "course_id": c.id, "name": format!("Lesson {}", l.id), "description": "a lesson"});
    if !l.enc.is_empty() {
        v["encompassed"] = json!(l.enc);
    }
    if let Some(m) = &l.meta {
        v["metadata"] = json!(m);
    }
    v
}
pub fn ex_json(c: &CourseSpec, l: &LessonSpec, e: &ExSpec, asset: Value) -> Value {
    json!({"id": e.id, "lesson_id": l.id, "course_id": c.id, "name": format!("Exercise {}", e.id), "description": "an exercise", "exercise_type": if e.proc { "Procedural" } else { "Declarative" }, "exercise_asset": asset})
}
fn write_course(root: &Path, c: &CourseSpec) {
    put(root, &format!("{}/course_manifest.json", c.dir), &course_json(c));
    match &c.kind {
        Kind::Plain => {
            for l in &c.lessons {
                let v = lesson_json(c, l);
                let ld = format!("{}/{}", c.dir, l.dir);
                put(root, &format!("{ld}/lesson_manifest.json"), &v);
                for e in &l.exs {
                    let ed = format!("{ld}/{}", e.dir);
                    let asset = match e.asset {
                        0 => json!({"BasicAsset": {"InlinedAsset": {"content": format!("do {}", e.id)}}}),
                        1 => {
                            put_text(root, &format!("{ed}/ex.md"), "text");
                            json!({"BasicAsset": {"MarkdownAsset": {"path": "ex.md"}}})
                        }
                        _ => {
                            put_text(root, &format!("{ed}/front.md"), "front");
                            put_text(root, &format!("{ed}/back.md"), "back");
                            json!({"FlashcardAsset": {"front_path": "front.md", "back_path": "back.md"}})
                        }
                    };
                    put(root, &format!("{ed}/exercise_manifest.json"), &ex_json(c, l, e, asset));
                }
            }
        }
        Kind::Kb { .. } => {
            for l in &c.lessons {
                let ld = format!("{}/{}.lesson", c.dir, l.dir);
                let _ = std::fs::create_dir_all(root.join(&ld));
                let short = |d: &String| d.strip_prefix(&format!("{}::", c.id)).filter(|s| c.lessons.iter().any(|x| x.dir == **s)).map(|s| s.to_string()).unwrap_or(d.clone());
                if !l.deps.is_empty() {
                    put(root, &format!("{ld}/lesson.dependencies.json"), &json!(l.deps.iter().map(short).collect::<Vec<_>>()));
                }
                if !l.enc.is_empty() {
                    put(root, &format!("{ld}/lesson.encompassed.json"), &json!(l.enc.iter().map(|(d, w)| (short(d), w)).collect::<Vec<_>>()));
                }
                if !l.sup.is_empty() {
                    put(root, &format!("{ld}/lesson.superseded.json"), &json!(l.sup.iter().map(short).collect::<Vec<_>>()));
                }
                if let Some(m) = &l.meta {
                    put(root, &format!("{ld}/lesson.metadata.json"), &json!(m));
                }
                put(root, &format!("{ld}/lesson.name.json"), &json!(format!("Lesson {}", l.id)));
                if l.exs.len() % 2 == 1 {
                    put_text(root, &format!("{ld}/lesson.instructions.md"), "how");
                }
                for e in &l.exs {
                    put_text(root, &format!("{ld}/{}.front.md", e.dir), &format!("front of {}", e.id));
                    if e.asset != 1 {
                        put_text(root, &format!("{ld}/{}.back.md", e.dir), "back");
                    }
                    put(root, &format!("{ld}/{}.name.json", e.dir), &json!(format!("Exercise {}", e.id)));
                    put(root, &format!("{ld}/{}.type.json", e.dir), &json!(if e.proc { "Procedural" } else { "Declarative" }));
                }
                // A back without a front is no exercise.
                put_text(root, &format!("{ld}/stray.back.md"), "x");
            }
        }
        Kind::Literacy { .. } => {
            put_text(root, &format!("{}/course.instructions.md", c.dir), "read it");
            for l in &c.lessons {
                let ld = format!("{}/{}.lesson", c.dir, l.dir);
                let short = |d: &String| d.strip_prefix(&format!("{}::", c.id)).and_then(|s| s.strip_suffix("::reading")).filter(|s| c.lessons.iter().any(|x| x.dir == **s)).map(|s| s.to_string()).unwrap_or(d.clone());
                if !l.deps.is_empty() {
                    put(root, &format!("{ld}/lesson.dependencies.json"), &json!(l.deps.iter().map(short).collect::<Vec<_>>()));
                }
                if !l.enc.is_empty() {
                    put(root, &format!("{ld}/lesson.encompassed.json"), &json!(l.enc.iter().map(|(d, w)| (short(d), w)).collect::<Vec<_>>()));
                }
                if !l.sup.is_empty() {
                    put(root, &format!("{ld}/lesson.superseded.json"), &json!(l.sup.iter().map(short).collect::<Vec<_>>()));
                }
                put(root, &format!("{ld}/lesson.name.json"), &json!(format!("Name {}", l.dir)));
                put_text(root, &format!("{ld}/b.example.md"), "second");
                put_text(root, &format!("{ld}/a.example.md"), "first");
                put_text(root, &format!("{ld}/a.answer.md"), "answer");
                put_text(root, &format!("{ld}/z.exception.md"), "odd");
                put_text(root, &format!("{ld}/simple_examples.md"), "one\ntwo\n\nthree\n");
            }
        }
        Kind::Music { .. } => {}
        Kind::Transcription(t) => {
            for p in &t.files {
                put(root, &format!("{}/passages/{}.{}", c.dir, p.id, if p.id == "t1" { "JSON" } else { "json" }), &p.json());
            }
            if !t.files.is_empty() {
                // What is no file of a passage is left alone.
                put_text(root, &format!("{}/passages/readme.txt", c.dir), "not a passage");
                put(root, &format!("{}/passages/more.json/t9.json", c.dir), &Pass { id: "t9".into(), ..Default::default() }.json());
            }
        }
    }
}
pub fn prefs_json(batch: Option<usize>, ignored: &[String], instruments: &[String]) -> Value {
    let t = if instruments.is_empty() { json!(null) } else { json!({"instruments": instruments.iter().map(|i| json!({"name": format!("the {i}"), "id": i})).collect::<Vec<_>>(), "download_path": null, "download_path_alias": null}) };
    json!({"transcription": t, "scheduler": batch.map(|b| json!({"batch_size": b})), "ignored_paths": ignored})
}
impl LibSpec {
    pub fn write(&self, root: &Path) {
        let _ = std::fs::create_dir_all(root);
        for c in self.courses.iter().chain(self.hidden.iter()) {
            write_course(root, c);
        }
        if let Some(salt) = self.rich {
            crate::content::Contents::of(self, salt).write(root);
        }
        for d in &self.decoys {
            put_text(root, d, "decoy");
        }
        if self.write_prefs {
            put_text(root, ".trane/user_preferences.json", &(serde_json::to_string_pretty(&prefs_json(self.batch_size, &self.ignored, &self.instruments)).unwrap() + "\n"));
        }
        for (n, v) in &self.filters {
            put(root, &format!(".trane/filters/{n}"), v);
        }
        for (n, v) in &self.sessions {
            put(root, &format!(".trane/study_sessions/{n}"), v);
        }
        if let Some(d) = &self.defect {
            for (n, t) in &d.files {
                put_text(root, n, t);
            }
        }
    }
    pub fn model(&self) -> Model {
        Model::of_courses(&self.courses)
    }
}

impl Model {
    pub fn of_courses(courses: &[CourseSpec]) -> Model {
        let mut m = Model::default();
        for c in courses {
            let mut meta = c.meta.clone().unwrap_or_default();
            let mut has_meta = c.meta.is_some();
            if let Kind::Literacy { .. } = c.kind {
                meta.insert("literacy_course".into(), vec!["true".into()]);
                has_meta = true;
            }
            if let Kind::Transcription(t) = &c.kind {
                meta.insert("transcription_course".into(), vec!["true".into()]);
                has_meta = true;
                for p in t.files.iter().chain(&t.inlined) {
                    for (k, v) in [("transcription_artist", &p.artist), ("transcription_album", &p.album)] {
                        if let Some(v) = v {
                            meta.entry(k.into()).or_default().push(v.clone());
                        }
                    }
                }
            }
            m.explicit_enc |= !c.enc.is_empty();
            let mut cu = Unit { id: c.id.clone(), ty: 'c', lesson: String::new(), course: c.id.clone(), deps: c.deps.iter().cloned().collect(), enc: c.enc.clone(), sup: c.sup.iter().cloned().collect(), meta, has_meta, kids: vec![], proc: false };
            let mut add = |cu: &mut Unit, id: String, deps: BTreeSet<String>, enc: Vec<(String, f32)>, sup: BTreeSet<String>, meta: Option<Meta>, exs: Vec<(String, bool)>| {
                cu.kids.push(id.clone());
                let mut lu = Unit { id: id.clone(), ty: 'l', lesson: id.clone(), course: c.id.clone(), deps, enc, sup, has_meta: meta.is_some(), meta: meta.unwrap_or_default(), kids: vec![], proc: false };
                for (e, p) in exs {
                    lu.kids.push(e.clone());
                    m.u.insert(e.clone(), Unit { id: e, ty: 'e', lesson: id.clone(), course: c.id.clone(), deps: BTreeSet::new(), enc: vec![], sup: BTreeSet::new(), meta: Meta::new(), has_meta: false, kids: vec![], proc: p });
                }
                m.explicit_enc |= !lu.enc.is_empty();
                m.u.insert(id, lu);
            };
            for l in &c.lessons {
                match &c.kind {
                    Kind::Literacy { dictation } => {
                        let lm = |v: &str| Some(Meta::from([("literacy_lesson".to_string(), vec![v.to_string()])]));
                        add(&mut cu, l.id.clone(), l.deps.iter().cloned().collect(), l.enc.clone(), l.sup.iter().cloned().collect(), lm("reading"), vec![(format!("{}::exercise", l.id), true)]);
                        if *dictation {
                            let own = |d: &String| c.lessons.iter().any(|x| x.id == *d);
                            let dict = |d: &String| if own(d) { format!("{}::dictation", d.strip_suffix("::reading").unwrap()) } else { d.clone() };
                            let mut deps: BTreeSet<String> = l.deps.iter().filter(|d| own(d)).map(dict).collect();
                            deps.insert(l.id.clone());
                            let id = dict(&l.id);
                            add(&mut cu, id.clone(), deps, l.enc.iter().map(|(d, w)| (dict(d), *w)).collect(), l.sup.iter().map(dict).collect(), lm("dictation"), vec![(format!("{id}::exercise"), true)]);
                        }
                    }
                    _ => add(&mut cu, l.id.clone(), l.deps.iter().cloned().collect(), l.enc.clone(), l.sup.iter().cloned().collect(), l.meta.clone(), l.exs.iter().map(|e| (e.id.clone(), e.proc)).collect()),
                }
            }
            match &c.kind {
                Kind::Music { paths, .. } => {
                    let name = |p: &[usize]| p.iter().fold(format!("{}::0", c.id), |s, i| format!("{s}::{i}"));
                    for p in paths.iter().chain([&vec![]]) {
                        let sub: BTreeSet<String> = paths.iter().filter(|q| q.len() == p.len() + 1 && q.starts_with(p)).map(|q| name(q)).collect();
                        add(&mut cu, name(p), sub, vec![], BTreeSet::new(), None, vec![(format!("{}::exercise", name(p)), true)]);
                    }
                }
                Kind::Transcription(t) => {
                    let own = |s: &str| format!("{}::{s}", c.id);
                    let lm = |v: &str, i: &str| Some(Meta::from([("transcription_lesson".to_string(), vec![v.to_string()]), ("instrument".to_string(), vec![i.to_string()])]));
                    let exs = |l: &str| -> Vec<(String, bool)> {
                        let of = |p: &Pass| -> Vec<String> { if p.intervals.is_empty() { vec![format!("{l}::{}", p.id)] } else { p.intervals.iter().map(|i| format!("{l}::{}::{i}", p.id)).collect() } };
                        t.files.iter().chain(&t.inlined).flat_map(of).map(|e| (e, true)).collect()
                    };
                    let (sing, adv) = (own("singing"), own("advanced_singing"));
                    let sung = |l: &str| if t.no_singing { vec![] } else { exs(l) };
                    let one = |x: &String| BTreeSet::from([x.clone()]);
                    add(&mut cu, sing.clone(), t.deps.iter().map(|d| format!("{d}::singing")).collect(), vec![], BTreeSet::new(), lm("singing", "voice"), sung(&sing));
                    if !t.no_advanced {
                        add(&mut cu, adv.clone(), one(&sing), vec![], one(&sing), lm("advanced_singing", "voice"), sung(&adv));
                    }
                    for i in &t.instruments {
                        let tr = own(&format!("transcription::{i}"));
                        let mut deps: BTreeSet<String> = t.deps.iter().map(|d| format!("{d}::transcription::{i}")).collect();
                        deps.insert(sing.clone());
                        add(&mut cu, tr.clone(), deps, vec![], BTreeSet::new(), lm("transcription", i), exs(&tr));
                        if !t.no_advanced {
                            let at = own(&format!("advanced_transcription::{i}"));
                            add(&mut cu, at.clone(), BTreeSet::from([tr.clone(), adv.clone()]), vec![], one(&tr), lm("advanced_transcription", i), exs(&at));
                        }
                    }
                }
                _ => {}
            }
            m.u.insert(c.id.clone(), cu);
        }
        for u in m.u.values() {
            for d in &u.deps {
                m.dependents.entry(d.clone()).or_default().insert(u.id.clone());
            }
            for d in &u.sup {
                m.sup_by.entry(d.clone()).or_default().insert(u.id.clone());
            }
            if u.ty == 'c' && !u.kids.is_empty() {
                let own: BTreeSet<&String> = u.kids.iter().collect();
                m.starting.insert(u.id.clone(), u.kids.iter().filter(|k| m.u[*k].deps.iter().all(|d| !own.contains(d))).cloned().collect());
            }
        }
        m
    }
    pub fn ids(&self, ty: char) -> Vec<String> {
        self.u.values().filter(|u| u.ty == ty).map(|u| u.id.clone()).collect()
    }
    /// Everything encompassed by a unit, with the default that dependencies are encompassed.
    pub fn encompasses(&self, id: &str) -> Vec<(String, f32)> {
        let Some(u) = self.u.get(id) else { return vec![] };
        let mut v = u.enc.clone();
        for d in &u.deps {
            if !v.iter().any(|(x, _)| x == d) {
                v.push((d.clone(), 1.0));
            }
        }
        v
    }
    pub fn exs_of(&self, id: &str) -> Vec<String> {
        match self.u.get(id) {
            Some(u) if u.ty == 'e' => vec![id.to_string()],
            Some(u) if u.ty == 'l' => u.kids.clone(),
            Some(u) => u.kids.iter().flat_map(|l| self.u[l].kids.clone()).collect(),
            None => vec![],
        }
    }
}
