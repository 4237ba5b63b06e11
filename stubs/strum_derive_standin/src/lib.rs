use proc_macro::{Delimiter, TokenStream, TokenTree};

/// `From<T>` and `From<&T>` for `&'static str`: the variant's name.
#[proc_macro_derive(IntoStaticStr)]
pub fn into_static_str(input: TokenStream) -> TokenStream {
    let mut name = None;
    let mut body = None;
    let mut tokens = input.into_iter();
    while let Some(token) = tokens.next() {
        match token {
            TokenTree::Ident(i) if i.to_string() == "enum" => name = tokens.next().map(|t| t.to_string()),
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && name.is_some() => body = Some(g.stream()),
            _ => {}
        }
    }
    let (name, body) = (name.expect("an enum"), body.expect("its variants"));
    let mut arms = String::new();
    let mut tokens = body.into_iter().peekable();
    while let Some(token) = tokens.next() {
        match token {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                tokens.next();
            }
            TokenTree::Ident(variant) => {
                let pattern = match tokens.peek() {
                    Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => "(..)",
                    Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => "{ .. }",
                    _ => "",
                };
                arms.push_str(&format!("{name}::{variant}{pattern} => \"{variant}\",\n"));
                // on to the next comma
                for token in tokens.by_ref() {
                    if matches!(&token, TokenTree::Punct(p) if p.as_char() == ',') {
                        break;
                    }
                }
            }
            _ => {}
        }
    }
    format!(
        "impl ::core::convert::From<&{name}> for &'static str {{ fn from(x: &{name}) -> &'static str {{ match x {{ {arms} }} }} }}
         impl ::core::convert::From<{name}> for &'static str {{ fn from(x: {name}) -> &'static str {{ (&x).into() }} }}"
    )
    .parse()
    .unwrap()
}
