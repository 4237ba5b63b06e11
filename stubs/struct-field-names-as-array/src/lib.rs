use proc_macro::{Delimiter, TokenStream, TokenTree};

/// `FIELD_NAMES_AS_ARRAY`: the names of a struct's fields, in order.
#[proc_macro_derive(FieldNamesAsArray)]
pub fn field_names_as_array(input: TokenStream) -> TokenStream {
    let mut name = None;
    let mut body = None;
    let mut vis = String::new();
    let mut tokens = input.into_iter();
    while let Some(token) = tokens.next() {
        match token {
            TokenTree::Ident(i) if i.to_string() == "pub" && name.is_none() => {
                vis = "pub".into();
            }
            TokenTree::Group(g) if vis == "pub" && name.is_none() && g.delimiter() == Delimiter::Parenthesis => {
                vis = format!("pub {g}");
            }
            TokenTree::Ident(i) if i.to_string() == "struct" => name = tokens.next().map(|t| t.to_string()),
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && name.is_some() => body = Some(g.stream()),
            _ => {}
        }
    }
    let (name, body) = (name.expect("a struct"), body.expect("its fields"));
    let mut fields = vec![];
    let mut last = None;
    let mut depth = 0i32;
    let mut in_type = false;
    let mut tokens = body.into_iter().peekable();
    while let Some(token) = tokens.next() {
        match &token {
            TokenTree::Punct(p) => match p.as_char() {
                ':' if !in_type => {
                    fields.push(last.take().expect("a field's name"));
                    in_type = true;
                }
                '<' => depth += 1,
                '>' => depth -= 1,
                ',' if depth == 0 => in_type = false,
                _ => {}
            },
            TokenTree::Ident(i) => last = Some(i.to_string()),
            _ => {}
        }
    }
    let n = fields.len();
    let list: String = fields.iter().map(|f| format!("\"{f}\",")).collect();
    format!("impl {name} {{ #[allow(dead_code)] {vis} const FIELD_NAMES_AS_ARRAY: [&'static str; {n}] = [{list}]; }}").parse().unwrap()
}
