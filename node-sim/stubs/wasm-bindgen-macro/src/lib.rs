//! Stand-in for the attribute of wasm-bindgen: what is imported from JavaScript becomes functions that ask the
//! simulator for the answer of the JavaScript side, and types that hold a JavaScript value; structs that are
//! exported can become JavaScript values.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(attr: TokenStream, item: TokenStream) -> TokenStream {
    let trees: Vec<TokenTree> = item.clone().into_iter().collect();
    // `struct Name` after attributes and visibility
    let mut depth0 = trees.iter().filter_map(|t| match t {
        TokenTree::Ident(i) => Some(i.to_string()),
        _ => None,
    });
    let first: Vec<String> = depth0.by_ref().take(3).collect();
    if let Some(k) = first.iter().position(|x| x == "struct") {
        if k <= 1 {
            let name = &first[k + 1];
            let extra: TokenStream = format!("impl From<{name}> for ::wasm_bindgen::JsValue {{ fn from(x: {name}) -> Self {{ ::wasm_bindgen::JsValue::object(x) }} }}").parse().unwrap();
            return item.into_iter().chain(extra).collect();
        }
    }
    let is_extern = matches!(trees.iter().find(|t| matches!(t, TokenTree::Ident(_))), Some(TokenTree::Ident(i)) if i.to_string() == "extern")
        && matches!(trees.last(), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace);
    if !is_extern {
        return item;
    }
    let module = attr
        .into_iter()
        .find_map(|t| match t {
            TokenTree::Literal(l) => Some(l.to_string()),
            _ => None,
        })
        .unwrap_or_else(|| "\"\"".into());
    let TokenTree::Group(body) = trees.last().unwrap() else { unreachable!() };
    // one declaration per semicolon
    let mut out = String::new();
    let mut decl: Vec<TokenTree> = vec![];
    for t in body.stream() {
        if matches!(&t, TokenTree::Punct(p) if p.as_char() == ';') {
            out += &one(&module, std::mem::take(&mut decl));
        } else {
            decl.push(t);
        }
    }
    out.parse().unwrap()
}

fn one(module: &str, decl: Vec<TokenTree>) -> String {
    let s = |v: &[TokenTree]| v.iter().cloned().collect::<TokenStream>().to_string();
    // attributes: doc comments are kept, #[wasm_bindgen(..)] is looked at
    let mut i = 0;
    let (mut docs, mut words, mut js_name) = (String::new(), vec![], None);
    while matches!(&decl[i], TokenTree::Punct(p) if p.as_char() == '#') {
        let a = decl[i + 1].to_string();
        if a.contains("wasm_bindgen") {
            words.extend(a.split(|c: char| !c.is_alphanumeric() && c != '_').map(|x| x.to_string()));
            if let Some(k) = a.find("js_name") {
                js_name = Some(a[k + 7..].trim_start_matches([' ', '=', '"']).split([',', ')', '"', ' ']).next().unwrap().to_string());
            }
        } else {
            docs += &s(&decl[i..i + 2]);
        }
        i += 2;
    }
    let has = |w: &str| words.iter().any(|x| x == w);
    if let Some(t) = decl.iter().position(|t| matches!(t, TokenTree::Ident(x) if x.to_string() == "type")) {
        let (vis, name) = (s(&decl[i..t]), decl[t + 1].to_string());
        return format!(
            "{docs} #[derive(Clone, Debug, PartialEq)] {vis} struct {name}(::wasm_bindgen::JsValue);
            impl From<{name}> for ::wasm_bindgen::JsValue {{ fn from(x: {name}) -> Self {{ x.0 }} }}
            impl From<::wasm_bindgen::JsValue> for {name} {{ fn from(x: ::wasm_bindgen::JsValue) -> Self {{ {name}(x) }} }}
            impl AsRef<::wasm_bindgen::JsValue> for {name} {{ fn as_ref(&self) -> &::wasm_bindgen::JsValue {{ &self.0 }} }}\n"
        );
    }
    let f = decl.iter().position(|t| matches!(t, TokenTree::Ident(x) if x.to_string() == "fn")).expect("a function");
    let asy = decl[i..f].iter().any(|t| t.to_string() == "async");
    let vis = s(&decl[i..f]).replace("async", "");
    let name = decl[f + 1].to_string();
    let TokenTree::Group(args) = &decl[f + 2] else { panic!("arguments") };
    let v: Vec<TokenTree> = args.stream().into_iter().collect();
    // name and type of each argument
    let mut params: Vec<(String, String)> = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    let mut angle = 0;
    for t in v.into_iter().map(Some).chain([None]) {
        match &t {
            Some(TokenTree::Punct(p)) if p.as_char() == '<' => angle += 1,
            Some(TokenTree::Punct(p)) if p.as_char() == '>' => angle -= 1,
            _ => {}
        }
        let end = t.is_none() || (angle == 0 && matches!(&t, Some(TokenTree::Punct(p)) if p.as_char() == ','));
        if !end {
            cur.push(t.unwrap());
        } else if !cur.is_empty() {
            params.push((cur[0].to_string(), s(&cur[2..])));
            cur.clear();
        }
    }
    let ret = s(&decl[f + 3..]);
    let js = js_name.unwrap_or(name.clone());
    let method = has("method");
    let list: String = params.iter().skip(method as usize).map(|(n, _)| format!("::wasm_bindgen::sim::ToJs::to_js({n}),")).collect();
    let sig: String = params.iter().skip(method as usize).map(|(n, t)| format!("{n}: {t},")).collect();
    if method {
        let ty = params[0].1.trim_start_matches(['&', ' ']).to_string();
        let call = if has("getter") { format!("::wasm_bindgen::sim::get(&self.0, \"{js}\")") } else { format!("::wasm_bindgen::sim::call_method(&self.0, \"{js}\", vec![{list}])") };
        return format!("impl {ty} {{ {docs} {vis} fn {name}(&self, {sig}) {ret} {{ ::wasm_bindgen::sim::FromJs::from_js({call}) }} }}\n");
    }
    if asy {
        assert!(has("catch"), "the stand-in knows only async imports that catch");
        return format!("{docs} {vis} async fn {name}({sig}) {ret} {{ ::wasm_bindgen::sim::call({module}, \"{js}\", vec![{list}]).await }}\n");
    }
    format!("{docs} {vis} fn {name}({sig}) {ret} {{ ::wasm_bindgen::sim::FromJs::from_js(::wasm_bindgen::sim::call_now({module}, \"{js}\", vec![{list}])) }}\n")
}
