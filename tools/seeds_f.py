
F='src/fold/fold.rs'
H="""#![allow(unused)]
use kami::fold::fold::Fold;
use std::path::PathBuf;
fn dir() -> PathBuf { let d = std::env::temp_dir().join(format!("fold-demo-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); d }
fn load(name: &str, bytes: &[u8]) -> std::io::Result<Fold> { let d = dir(); let f = d.join(name); std::fs::write(&f, bytes).unwrap(); let r = std::panic::catch_unwind(|| Fold::from_file(&f)); std::fs::remove_dir_all(&d).unwrap(); r.expect("panics") }
"""
SEEDS=[
 dict(id='f01-write-key', prop='F01', file=F, edits=[('#[serde(default, rename = "edgeOrders")]','#[serde(default, rename(deserialize = "edgeOrders"))]')],
  needs='a document with edge orders, written and read again', breaks='edge orders are written under the name of the field and read under the key of the format',
  demo=H+"""fn main() {
    let f: Fold = serde_json::from_str("{\\"edgeOrders\\":[[1,2,-1]]}").unwrap();
    let g: Fold = serde_json::from_str(&serde_json::to_string(&f).unwrap()).unwrap();
    assert_eq!(f.edgeorders, g.edgeorders);
}"""),
 dict(id='f01-skip-flat', prop='F01', file=F, edits=[('    #[serde(default)]\n    pub edges_lengths','    #[serde(default, skip_serializing_if = "is_unit")]\n    pub edges_lengths'),('impl Fold {','/// Edges of length 1 need not be listed\nfn is_unit(lengths: &Vec<f32>) -> bool {\n    lengths.iter().all(|l| *l == 1.0)\n}\n\nimpl Fold {')],
  needs='a document all of whose edges have length 1', breaks='the lengths are not written when all are 1 and come back empty',
  demo=H+"""fn main() {
    let f: Fold = serde_json::from_str("{\\"edges_lengths\\":[1,1.0,1]}").unwrap();
    let g: Fold = serde_json::from_str(&serde_json::to_string(&f).unwrap()).unwrap();
    assert_eq!(f.edges_lengths, g.edges_lengths);
}"""),
 dict(id='f01-skip-classes', prop='F01', file=F, edits=[('    #[serde(default)]\n    pub frame_classes','    #[serde(default, skip_serializing)]\n    pub frame_classes')],
  needs='a document with frame classes', breaks='the frame classes are never written',
  demo=H+"""fn main() {
    let f: Fold = serde_json::from_str("{\\"frame_classes\\":[\\"creasePattern\\"]}").unwrap();
    let g: Fold = serde_json::from_str(&serde_json::to_string(&f).unwrap()).unwrap();
    assert_eq!(f.frame_classes, g.frame_classes);
}"""),
 dict(id='f02-lossy-text', prop='F02', file=F, edits=[('        let mut contents = String::new();\n        file.read_to_string(&mut contents)?;\n','        let mut bytes = Vec::new();\n        file.read_to_end(&mut bytes)?;\n        let contents = String::from_utf8_lossy(&bytes);\n')],
  needs='a file with bytes that are not UTF-8 inside a string', breaks='a damaged file is loaded with replacement characters instead of being refused',
  demo=H+"""fn main() {
    assert!(load("a.fold", b"{\\"file_title\\":\\"cr\\xffne\\"}").is_err());
    assert_eq!(load("b.fold", "{\\"file_title\\":\\"cr\\u{e9}ne\\"}".as_bytes()).unwrap().file_title, "cr\\u{e9}ne");
}"""),
 dict(id='f02-required', prop='F02', file=F, edits=[('    #[serde(default)]\n    pub vertices_faces','    pub vertices_faces')],
  needs='a file without vertices_faces', breaks='a conforming file which leaves out vertices_faces is refused',
  demo=H+"""fn main() { let f = load("a.fold", b"{\\"file_spec\\":1,\\"vertices_coords\\":[[0,1]]}").unwrap(); assert!(f.vertices_faces.is_empty()); }"""),
 dict(id='f02-resolve-trim', prop='F02', file=F, edits=[('        // Fill in missing bits of information from .fold spec\n','        // Fill in missing bits of information from .fold spec\n        if self.edges_assignment.len() > self.edges_vertices.len() {\n            self.edges_assignment.truncate(self.edges_vertices.len());\n        }\n')],
  needs='a file with more assignments than edges', breaks='assignments beyond the number of edges are dropped on loading',
  demo=H+"""fn main() { let f = load("a.fold", b"{\\"edges_assignment\\":[\\"M\\",\\"V\\"],\\"edges_vertices\\":[[0,1]]}").unwrap(); assert_eq!(f.edges_assignment, ["M", "V"]); }"""),
 dict(id='f02-validate-index', prop='F02', file=F, edits=[('        true\n','        let n = self.vertices_coords.len();\n        self.edges_vertices.iter().all(|e| e[0] < n as i32 && e[1] < n as i32)\n')],
  needs='a file with an edge that lists fewer than two vertices', breaks='loading panics on an edge with fewer than two vertices',
  demo=H+"""fn main() { let f = load("a.fold", b"{\\"edges_vertices\\":[[]]}").unwrap(); assert_eq!(f.edges_vertices, [Vec::<i32>::new()]); }"""),
]
