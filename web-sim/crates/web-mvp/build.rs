//! Code for the messages of the repository's .proto files (flat messages of scalar fields).
use std::fmt::Write;

fn main() {
    let dir = "/repo/apps/wasm/mvp/proto";
    println!("cargo:rerun-if-changed={dir}");
    println!("cargo:rerun-if-changed=build.rs");
    let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "proto")).collect();
    files.sort();
    let mut o = String::new();
    for f in files {
        writeln!(o, "pub mod {} {{", f.file_stem().unwrap().to_str().unwrap()).unwrap();
        let text = std::fs::read_to_string(&f).unwrap();
        let text: String = text.lines().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join(" ").replace("\t", " ");
        for m in text.split(" message ").skip(1) {
            let (name, rest) = m.split_once('{').unwrap();
            let name = name.trim();
            let fields: Vec<(String, String, u32)> = rest
                .split('}')
                .next()
                .unwrap()
                .split(';')
                .map(|d| d.trim())
                .filter(|d| !d.is_empty())
                .map(|d| {
                    let (l, n) = d.split_once('=').unwrap();
                    let v: Vec<&str> = l.split_whitespace().collect();
                    let [ty, name] = v[..] else { panic!("{d}") };
                    (ty.to_string(), name.to_string(), n.trim().parse().unwrap())
                })
                .collect();
            let ty = |t: &str| match t {
                "bool" => "bool",
                "string" => "::std::string::String",
                "int64" => "i64",
                "uint64" => "u64",
                "int32" => "i32",
                "uint32" => "u32",
                t => panic!("type {t}"),
            };
            writeln!(o, "#[derive(Default, Clone, Debug, PartialEq)] pub struct {name} {{").unwrap();
            for (t, n, _) in &fields {
                writeln!(o, "pub {n}: {},", ty(t)).unwrap();
            }
            writeln!(o, "}} impl {name} {{ pub fn new() -> Self {{ Default::default() }} }}").unwrap();
            writeln!(o, "impl ::protobuf::Message for {name} {{ fn write_to_bytes(&self) -> ::protobuf::Result<Vec<u8>> {{ let mut o = vec![];").unwrap();
            for (t, n, k) in &fields {
                if t == "string" {
                    writeln!(o, "::protobuf::sim::text(&mut o, {k}, &self.{n});").unwrap();
                } else {
                    writeln!(o, "::protobuf::sim::number(&mut o, {k}, self.{n} as i64 as u64);").unwrap();
                }
            }
            writeln!(o, "Ok(o) }} fn parse_from_bytes(b: &[u8]) -> ::protobuf::Result<Self> {{ let mut m = Self::default(); for x in ::protobuf::sim::parse(b)? {{ match x {{").unwrap();
            for (t, n, k) in &fields {
                if t == "string" {
                    writeln!(o, "({k}, ::protobuf::sim::Item::Text(v)) => m.{n} = String::from_utf8(v).map_err(|e| ::protobuf::Error(e.to_string()))?,").unwrap();
                } else if t == "bool" {
                    writeln!(o, "({k}, ::protobuf::sim::Item::Number(v)) => m.{n} = v != 0,").unwrap();
                } else {
                    writeln!(o, "({k}, ::protobuf::sim::Item::Number(v)) => m.{n} = v as {},", ty(t)).unwrap();
                }
            }
            writeln!(o, "_ => {{}} }} }} Ok(m) }} }}").unwrap();
        }
        writeln!(o, "}}").unwrap();
    }
    let out = std::env::var("OUT_DIR").unwrap() + "/protobuf";
    std::fs::create_dir_all(&out).unwrap();
    std::fs::write(out + "/mod.rs", o).unwrap();
}
