//! Demonstrations of the known findings (see known-findings.txt).
use mabo::{Decode, Encode, buf::Size};

use crate::known::{Inner, Newer, NewerOption, Older, Outer, TupleField};

fn encoded(v: &impl Encode) -> Vec<u8> {
    let mut w = Vec::new();
    v.encode(&mut w);
    w
}

pub fn kf13__tuple_field__once() {
    let v = TupleField { a: (1, 2) };
    assert_eq!(v.size(), encoded(&v).len(), "predicted size and encoded length");
}

pub fn kf12__vec_of_tuple_field__once() {
    let v = Outer { all: vec![TupleField { a: (1, 2) }] };
    let w = Outer::decode(&mut &encoded(&v)[..]);
    assert!(w.is_ok_and(|w| w == v), "round trip");
}

pub fn kf14__nested_struct__once() {
    let v = Newer { a: 7, b: Inner { a: 100 } };
    let data = encoded(&v);
    let mut r = &data[..];
    assert!(Older::decode(&mut r).is_ok_and(|w| w.a == 7) && r.is_empty(), "the unknown field is skipped");
}

pub fn kf14__nested_option__once() {
    let v = NewerOption { a: 7, b: Some(Some("abc".into())) };
    let data = encoded(&v);
    let mut r = &data[..];
    assert!(Older::decode(&mut r).is_ok_and(|w| w.a == 7) && r.is_empty(), "the unknown field is skipped");
}

/// Compile the code that is generated for schemas/broken/<name>.mabo.
fn compiles(name: &str) {
    let deps = std::env::current_exe().unwrap().parent().unwrap().join("deps");
    let newest = std::fs::read_dir(&deps).unwrap().map(|f| f.unwrap())
        .filter(|f| f.file_name().to_str().is_some_and(|n| n.starts_with("libmabo-") && n.ends_with(".rlib")))
        .max_by_key(|f| f.metadata().unwrap().modified().unwrap()).expect("the runtime crate");
    let out = std::env::temp_dir().join(format!("mabo-broken-{name}-{}", std::process::id()));
    std::fs::create_dir_all(&out).unwrap();
    let file = concat!(env!("OUT_DIR"), "/gen/broken/mabo/").to_owned() + name + ".rs";
    let res = std::process::Command::new("rustc").args(["--edition", "2024", "--crate-type", "lib", "--crate-name", "generated", "--emit", "metadata", "--cap-lints", "allow"])
        .arg("--out-dir").arg(&out).arg("--extern").arg(format!("mabo={}", newest.path().display())).arg("-L").arg(format!("dependency={}", deps.display())).arg(file).output();
    let _ = std::fs::remove_dir_all(&out);
    let res = res.expect("the compiler runs");
    assert!(res.status.success(), "the generated code compiles:\n{}", String::from_utf8_lossy(&res.stderr));
}

pub fn kf12__field_names__once() {
    compiles("names");
}
pub fn kf12__keywords__once() {
    compiles("keywords");
}
pub fn kf12__type_arguments__once() {
    compiles("arguments");
}
pub fn kf12__float_keys__once() {
    compiles("floats");
}

pub fn list() -> Vec<(&'static str, fn())> {
    vec![
        ("kf12__vec_of_tuple_field__once", kf12__vec_of_tuple_field__once),
        ("kf12__field_names__once", kf12__field_names__once),
        ("kf12__keywords__once", kf12__keywords__once),
        ("kf12__type_arguments__once", kf12__type_arguments__once),
        ("kf12__float_keys__once", kf12__float_keys__once),
        ("kf13__tuple_field__once", kf13__tuple_field__once),
        ("kf14__nested_struct__once", kf14__nested_struct__once),
        ("kf14__nested_option__once", kf14__nested_option__once),
    ]
}
