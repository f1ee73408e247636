//! `#[tauri::command]` and `tauri::generate_handler!`. A command's arguments are matched by name, as tauri does:
//! the two strings `source_path` and `dest_path`, and the window by its type.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn command(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let tokens: Vec<TokenTree> = item.clone().into_iter().collect();
    let at = tokens.iter().position(|t| t.to_string() == "fn").expect("a function");
    let name = tokens[at + 1].to_string();
    let wait = if tokens[..at].iter().any(|t| t.to_string() == "async") { ".await" } else { "" };
    let Some(TokenTree::Group(params)) = tokens[at..].iter().find(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis)) else {
        panic!("parameters")
    };
    let mut list = vec![(String::new(), String::new(), false)];
    let mut depth = 0;
    for t in params.stream() {
        let l = list.last_mut().unwrap();
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' && depth == 0 => list.push(Default::default()),
            TokenTree::Punct(p) if p.as_char() == ':' && !l.2 => l.2 = true,
            t => {
                let s = t.to_string();
                depth += (s == "<") as i32 - (s == ">") as i32;
                if l.2 {
                    l.1 += &s;
                } else if s != "mut" {
                    l.0 += &s;
                }
            }
        }
    }
    let args: Vec<&str> = list
        .iter()
        .filter(|l| l.2)
        .map(|(n, ty, _)| match n.as_str() {
            "source_path" => "s.into()",
            "dest_path" => "d.into()",
            _ if ty.ends_with("AppHandle") => "w.app_handle()",
            _ if ty.contains("Window") => "w.clone()",
            _ => panic!("harness: no argument {n}"),
        })
        .collect();
    let wrapper = format!(
        "#[doc(hidden)] pub async fn __command_{name}(w: ::tauri::Window, s: ::std::string::String, d: ::std::string::String) -> ::tauri::Reply {{ \
         use ::tauri::Manager as _; let _ = (&w, &s, &d); ::tauri::reply({name}({}){wait}) }}",
        args.join(", ")
    );
    let mut out = item;
    out.extend(wrapper.parse::<TokenStream>().unwrap());
    out
}

/// `a::b, c::d` -> `vec![("b", |w, s, d| Box::pin(a::__command_b(w, s, d))), ...]`
#[proc_macro]
pub fn generate_handler(input: TokenStream) -> TokenStream {
    let mut paths = vec![vec![]];
    for t in input {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => paths.push(vec![]),
            t => paths.last_mut().unwrap().push(t.to_string()),
        }
    }
    let mut out = String::from("{ let mut h = ::tauri::Handlers::default();");
    for p in paths.iter_mut().filter(|p| !p.is_empty()) {
        let n = p.pop().unwrap();
        let path = p.concat();
        out += &format!("h.add(\"{n}\", |w, s, d| ::std::boxed::Box::pin({path}__command_{n}(w, s, d)));");
    }
    out += "h }";
    out.parse().unwrap()
}
