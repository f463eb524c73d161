//! Writing courses through the builders, and checking what an acknowledged build left on disk.
use crate::exec::*;
use crate::oracle::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use trane::course_builder::knowledge_base_builder as kb;
use trane::course_builder::{AssetBuilder, CourseBuilder, ExerciseBuilder, LessonBuilder};
use trane::data::course_generator::knowledge_base::{KnowledgeBaseExercise, KnowledgeBaseLesson};
use trane::data::*;
use trane::Trane;

/// `dir` is `built/<slot>/<name>`; `files` are further assets of the course and of each lesson.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BuildSpec {
    pub kind: String,
    pub course: CourseSpec,
    pub files: Vec<(String, String)>,
    /// Distinguishes the contents of one build from those of an earlier one.
    pub tag: String,
    /// An asset that a manifest mentions is not part of the description.
    pub incomplete: bool,
    /// Large assets take several write calls.
    pub big: usize,
}

fn assets(b: &BuildSpec, place: &str) -> Vec<AssetBuilder> {
    b.files.iter().map(|(n, t)| AssetBuilder { file_name: n.clone(), contents: text(b, &format!("{place}/{t}")) }).collect()
}
fn text(b: &BuildSpec, t: &str) -> String {
    let mut s = format!("{} {t}\n", b.tag);
    while s.len() < b.big {
        s.push_str("0123456789abcdef");
    }
    s
}
fn manifest(c: &CourseSpec) -> CourseManifest {
    serde_json::from_value(course_json(c)).unwrap()
}
fn ty(e: &ExSpec) -> ExerciseType {
    if e.proc { ExerciseType::Procedural } else { ExerciseType::Declarative }
}

/// Files, relative to the course's directory, that a complete build leaves.
fn expected(b: &BuildSpec) -> Vec<(PathBuf, String)> {
    let mut v = vec![];
    let c = &b.course;
    if b.kind != "kb" {
        v.extend(assets(b, "course").into_iter().map(|a| (PathBuf::from(a.file_name), a.contents)));
    }
    for l in &c.lessons {
        let ld = PathBuf::from(if b.kind == "plain" { l.dir.clone() } else { format!("{}.lesson", l.dir) });
        v.extend(assets(b, &l.dir).into_iter().map(|a| (ld.join(a.file_name), a.contents)));
        for e in &l.exs {
            if b.kind == "plain" {
                v.extend(ex_assets(b, e).into_iter().map(|a| (ld.join(&e.dir).join(a.file_name), a.contents)));
            } else {
                v.push((ld.join(format!("{}.front.md", e.dir)), text(b, &e.id)));
                if e.asset != 1 {
                    v.push((ld.join(format!("{}.back.md", e.dir)), text(b, "back")));
                }
            }
        }
    }
    v
}
fn ex_assets(b: &BuildSpec, e: &ExSpec) -> Vec<AssetBuilder> {
    let a = |n: &str| AssetBuilder { file_name: n.into(), contents: text(b, &format!("{} {n}", e.id)) };
    match e.asset {
        0 => vec![],
        1 => vec![a("ex.md")],
        _ => vec![a("front.md"), a("back.md")],
    }
}

fn plain(b: &BuildSpec, parent: &Path, name: &str) -> anyhow::Result<()> {
    let c = &b.course;
    // One of the exercises with assets lacks one.
    let with: Vec<String> = c.lessons.iter().flat_map(|l| &l.exs).filter(|e| e.asset != 0).map(|e| e.id.clone()).collect();
    let missing = if with.is_empty() { None } else { Some(with[crate::rng::hash_bytes(with.join(" ").as_bytes()) as usize % with.len()].clone()) };
    let lessons = c
        .lessons
        .iter()
        .map(|l| {
            let exs = l
                .exs
                .iter()
                .map(|e| {
                    let e2 = e.clone();
                    let mut asset_builders = ex_assets(b, e);
                    if b.incomplete && missing.as_ref() == Some(&e.id) {
                        let k = crate::rng::hash_bytes(e.id.as_bytes()) as usize % asset_builders.len();
                        asset_builders.remove(k);
                    }
                    ExerciseBuilder {
                        directory_name: e.dir.clone(),
                        manifest_closure: Box::new(move |m| {
                            let mut m = m.clone();
                            let asset = match e2.asset {
                                0 => ExerciseAsset::BasicAsset(BasicAsset::InlinedAsset { content: format!("do {}", e2.id) }),
                                1 => ExerciseAsset::BasicAsset(BasicAsset::MarkdownAsset { path: "ex.md".into() }),
                                _ => ExerciseAsset::FlashcardAsset { front_path: "front.md".into(), back_path: Some("back.md".into()) },
                            };
                            m.id(us(&e2.id)).name(format!("Exercise {}", e2.id)).exercise_type(ty(&e2)).exercise_asset(asset);
                            m
                        }),
                        asset_builders,
                    }
                })
                .collect();
            let l2 = l.clone();
            let mut tmpl = ExerciseManifestBuilder::default();
            tmpl.lesson_id(us(&l.id)).course_id(us(&c.id));
            LessonBuilder {
                directory_name: l.dir.clone(),
                manifest_closure: Box::new(move |m| {
                    let mut m = m.clone();
                    m.id(us(&l2.id)).name(format!("Lesson {}", l2.id)).dependencies(l2.deps.iter().map(|x| us(x)).collect::<Vec<_>>());
                    m.encompassed(l2.enc.iter().map(|(x, w)| (us(x), *w)).collect::<Vec<_>>()).superseded(l2.sup.iter().map(|x| us(x)).collect::<Vec<_>>()).metadata(l2.meta.clone());
                    m
                }),
                exercise_manifest_template: tmpl,
                exercise_builders: exs,
                asset_builders: assets(b, &l.dir),
            }
        })
        .collect();
    let mut tmpl = LessonManifestBuilder::default();
    tmpl.course_id(us(&c.id));
    CourseBuilder { directory_name: name.into(), course_manifest: manifest(c), lesson_manifest_template: tmpl, lesson_builders: lessons, asset_builders: assets(b, "course") }.build(parent)
}
fn short(c: &CourseSpec, d: &str) -> ustr::Ustr {
    match c.lessons.iter().find(|l| l.id == d) {
        Some(l) => us(&l.dir),
        None => us(d),
    }
}
fn knowledge(b: &BuildSpec, parent: &Path, name: &str) -> anyhow::Result<()> {
    let c = &b.course;
    if b.kind == "kb" {
        let lessons = c
            .lessons
            .iter()
            .map(|l| kb::SimpleKnowledgeBaseLesson {
                short_id: us(&l.dir),
                dependencies: l.deps.iter().map(|d| short(c, d)).collect(),
                superseded: l.sup.iter().map(|d| short(c, d)).collect(),
                encompassed: l.enc.iter().map(|(d, w)| (short(c, d), *w)).collect(),
                exercises: l.exs.iter().map(|e| kb::SimpleKnowledgeBaseExercise { short_id: e.dir.clone(), front: vec![text(b, &e.id)], back: if e.asset == 1 { vec![] } else { vec![text(b, "back")] } }).collect(),
                metadata: l.meta.clone(),
                additional_files: assets(b, &l.dir),
            })
            .collect();
        let mut m = manifest(c);
        let enc = std::mem::take(&mut m.encompassed);
        return kb::SimpleKnowledgeBaseCourse { manifest: m, encompassed: enc, lessons }.build(&parent.join(name));
    }
    let lessons = c
        .lessons
        .iter()
        .map(|l| kb::LessonBuilder {
            lesson: KnowledgeBaseLesson {
                short_id: us(&l.dir),
                course_id: us(&c.id),
                dependencies: l.deps.iter().map(|d| short(c, d)).collect(),
                encompassed: l.enc.iter().map(|(d, w)| (short(c, d), *w)).collect(),
                superseded: l.sup.iter().map(|d| short(c, d)).collect(),
                name: Some(format!("Lesson {}", l.id)),
                description: Some("a lesson".into()),
                metadata: l.meta.clone(),
                has_instructions: false,
                has_material: false,
                default_exercise_type: None,
            },
            exercises: l
                .exs
                .iter()
                .map(|e| {
                    let mut asset_builders = vec![AssetBuilder { file_name: format!("{}.front.md", e.dir), contents: text(b, &e.id) }];
                    if e.asset != 1 {
                        asset_builders.push(AssetBuilder { file_name: format!("{}.back.md", e.dir), contents: text(b, "back") });
                    }
                    kb::ExerciseBuilder {
                        exercise: KnowledgeBaseExercise { short_id: e.dir.clone(), short_lesson_id: us(&l.dir), course_id: us(&c.id), front_file: format!("{}.front.md", e.dir), back_file: if e.asset == 1 { None } else { Some(format!("{}.back.md", e.dir)) }, name: Some(format!("Exercise {}", e.id)), description: None, exercise_type: Some(ty(e)) },
                        asset_builders,
                    }
                })
                .collect(),
            asset_builders: assets(b, &l.dir),
        })
        .collect();
    kb::CourseBuilder { directory_name: name.into(), lessons, assets: assets(b, "course"), manifest: manifest(c) }.build(parent)
}

pub fn build(c: &mut Ctx, op: u32, v: &Value) -> R {
    let b: BuildSpec = serde_json::from_value(v.clone()).map_err(|e| format!("bad plan: {e}"))?;
    let dir = vroot().join(&b.course.dir);
    let (parent, name) = (dir.parent().unwrap().to_path_buf(), dir.file_name().unwrap().to_str().unwrap().to_string());
    if b.kind == "kb" {
        calmly(|| std::fs::create_dir_all(&dir)).map_err(|e| e.to_string())?;
    }
    let r = if b.kind == "plain" { plain(&b, &parent, &name) } else { knowledge(&b, &parent, &name) };
    c.probes += 1;
    r.map_err(|e| format!("{e:#}"))?;
    // The course as opened on its own, on a healthy disk.
    let bad = calmly(|| -> Option<String> {
        for (p, t) in expected(&b) {
            match std::fs::read_to_string(dir.join(&p)) {
                Ok(x) if x == t => {}
                Ok(x) => return Some(format!("{} holds {} bytes instead of {}", p.display(), x.len(), t.len())),
                Err(e) => return Some(format!("{}: {e}", p.display())),
            }
        }
        let t = match Trane::new_local(&vroot().join(".chk"), &parent) {
            Ok(t) => t,
            Err(e) => return Some(format!("the library does not open: {e:#}")),
        };
        let m = Model::of_courses(std::slice::from_ref(&b.course));
        diff_model(&lib_dump(&t), &m)
    });
    if let Some(x) = bad {
        violation("P25", op, format!("the build of {} succeeded, but {x}", b.course.id));
    }
    Ok(json!(null))
}
