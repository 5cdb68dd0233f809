//! C25: the macros take exactly the declarations they are documented for.
use crate::reref::{parse, supported, Mode};
use crate::sym;
use proc_macro2::{Literal, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use syn::{File, ImplItem, Item, ItemImpl, PathArguments, Type};

fn tokens(s: &str) -> TokenStream {
  match s.parse() {
    Ok(t) => t,
    Err(_) => fail!(),
  }
}

/// Does the output refuse the input?
fn refuses(ts: &TokenStream) -> bool {
  ts.clone().into_iter().any(|t| match t {
    TokenTree::Ident(i) => i == "compile_error",
    _ => false,
  })
}

/// The items a macro gives; none if it refuses.
fn items(ts: TokenStream) -> Option<Vec<Item>> {
  if refuses(&ts) {
    return None;
  }
  match syn::parse2::<File>(ts) {
    Ok(f) => Some(f.items),
    Err(_) => fail!(),
  }
}

fn text<T: ToTokens>(t: &T) -> String {
  t.to_token_stream().to_string()
}

/// The only implementation of a derive, of the right trait for the right type.
fn implementation(items: &[Item], name: &str, ty: &str) -> ItemImpl {
  let mut impls = items.iter().filter_map(|i| match i {
    Item::Impl(i) => Some(i),
    _ => None,
  });
  let i = match impls.next() {
    Some(i) => i,
    None => fail!(),
  };
  check!(impls.next().is_none());
  match &i.trait_ {
    Some((_, p, _)) => check!(p.segments.last().unwrap().ident == name),
    None => fail!(),
  }
  check!(text(&*i.self_ty).replace([' ', '\n'], "") == ty.replace(' ', ""));
  i.clone()
}

fn method(i: &ItemImpl, name: &str) -> bool {
  i.items.iter().any(|i| matches!(i, ImplItem::Fn(f) if f.sig.ident == name))
}

/// What an attribute makes of a variant.
#[derive(Clone, Copy, PartialEq)]
enum A {
  /// No pattern.
  Plain,
  Regex,
  Parser,
  Skip,
  Eof,
  /// More than one, or malformed.
  Wrong,
  /// Whose expression is faulty.
  Fault(&'static A),
}
const ATTRS: [(&str, A); 22] = [
  ("", A::Plain),
  (r#"#[regex("a")]"#, A::Regex),
  (r#"#[regex("b+", f)]"#, A::Parser),
  (r#"#[skip(" ")]"#, A::Skip),
  ("#[eof]", A::Eof),
  (r#"#[doc = " x"] #[regex("a|")]"#, A::Regex),
  (r##"#[regex(r#"c"#)] #[doc = " x"]"##, A::Regex),
  (r#"#[skip("c")] #[allow(unused)]"#, A::Skip),
  (r#"#[regex("")]"#, A::Regex),
  (r#"#[regex("a", |s| Some(1))]"#, A::Parser),
  (r#"#[regex("(")]"#, A::Fault(&A::Regex)),
  (r#"#[regex("^a", f)]"#, A::Fault(&A::Parser)),
  (r#"#[regex("[^\\x00-\\x{10FFFF}]")]"#, A::Fault(&A::Regex)),
  (r#"#[skip("*")]"#, A::Fault(&A::Skip)),
  ("#[regex(1)]", A::Wrong),
  ("#[regex()]", A::Wrong),
  (r#"#[regex("a" f)]"#, A::Wrong),
  (r#"#[skip("a", f)]"#, A::Wrong),
  (r#"#[regex("a")] #[regex("b")]"#, A::Wrong),
  (r#"#[skip("a")] #[regex("a")]"#, A::Wrong),
  (r#"#[regex("a")] #[eof]"#, A::Wrong),
  (r#"#[eof] #[skip("a")]"#, A::Wrong),
];
/// Fields of a variant: whether they may be, and whether they carry a value.
const FIELDS: [(&str, bool, bool); 6] = [
  ("", true, false),
  ("()", true, false),
  ("(i32)", true, true),
  ("(i32, u8)", false, false),
  ("{ x: i32 }", false, false),
  ("(#[cfg(all())] String,)", true, true),
];

/// May there be such a variant?
fn may(attr: A, fields: (&str, bool, bool), bytes: bool) -> bool {
  fields.1
    && match attr {
      A::Plain => true,
      A::Regex => !(bytes && fields.2),
      A::Parser => fields.2,
      A::Skip | A::Eof => !fields.2,
      A::Wrong | A::Fault(_) => false,
    }
}
/// Has the variant an expression?
fn expression(a: A) -> bool {
  matches!(a, A::Regex | A::Parser | A::Skip)
}

fn tokenize(kind: &str, pre: &str, head: &str, vars: &[(&str, &str, &str)]) -> Option<Vec<Item>> {
  let body: String = vars.iter().map(|(attr, name, fields)| format!("{attr} {name} {fields},")).collect();
  items(crate::derives::Tokenize(tokens(&format!("{pre} {kind} {head} {{ {body} }}"))))
}
fn check_lexer(items: &[Item], ty: &str, bytes: bool) {
  let i = implementation(items, "Tokenize", ty);
  check!(method(&i, "next_token"));
  let ok = i.items.iter().any(|i| match i {
    ImplItem::Type(t) => t.ident == "CharType" && text(&t.ty) == if bytes { "u8" } else { "char" },
    _ => false,
  });
  check!(ok);
}

/// Attributes of the enumeration, and one variant.
#[no_mangle]
pub extern "C" fn c25_tokenize() {
  sym::cpus(1);
  // whether they may be, and whether they ask for bytes
  let pres = [
    ("", true, false),
    ("#[char_type(char)]", true, false),
    ("#[char_type(u8)]", true, true),
    ("#[char_type(str)]", false, false),
    ("#[char_type(&u8)]", false, false),
    ("#[char_type()]", false, false),
    ("#[char_type(u8)] #[char_type(u8)]", false, false),
    ("#[enable_par(true)]", true, false),
    ("#[derive(Clone)] #[enable_par(false)] #[char_type(u8)]", true, true),
    ("#[enable_par(1)]", false, false),
    ("#[enable_par(true)] #[enable_par(false)]", false, false),
  ];
  let pre = pres[sym::range(0, pres.len() - 1)];
  let (attr, a) = ATTRS[sym::range(0, ATTRS.len() - 1)];
  let fields = FIELDS[sym::range(0, FIELDS.len() - 1)];
  let want = pre.1 && may(a, fields, pre.2) && expression(a);
  let got = tokenize("enum", pre.0, "Name", &[(attr, "A", fields.0), ("#[eof]", "B", "")]);
  // a second end of input
  let want = want && a != A::Eof;
  check!(got.is_some() == want);
  if let Some(i) = got {
    check_lexer(&i, "Name", pre.2);
  }
  sym::cover(want as u32);
}

/// Two variants.
#[no_mangle]
pub extern "C" fn c25_variants() {
  sym::cpus(1);
  let bytes = sym::range(0, 1) == 1;
  let mut vars = vec![];
  let mut want = true;
  let mut some = false;
  let mut eofs = 0;
  for name in ["A", "Bb"] {
    let (attr, a) = ATTRS[sym::range(0, ATTRS.len() - 1)];
    #[cfg(not(feature = "thorough"))]
    let fields = FIELDS[[0, 2][sym::range(0, 1)]];
    #[cfg(feature = "thorough")]
    let fields = FIELDS[sym::range(0, FIELDS.len() - 1)];
    want &= may(a, fields, bytes);
    some |= expression(a);
    eofs += (a == A::Eof) as usize;
    vars.push((attr, name, fields.0));
  }
  want &= some & (eofs < 2);
  let pre = if bytes { "#[char_type(u8)]" } else { "" };
  let got = tokenize("enum", pre, "Name", &vars);
  check!(got.is_some() == want);
  if let Some(i) = got {
    check_lexer(&i, "Name", bytes);
  }
  sym::cover(want as u32);
}

/// Other types than enumerations, and other enumerations.
#[no_mangle]
pub extern "C" fn c25_types() {
  sym::cpus(1);
  let a = (r#"#[regex("a")]"#, "A", "");
  let (got, want) = match sym::range(0, 6) {
    0 => (items(crate::derives::Tokenize(tokens("struct Name;"))), None),
    1 => (items(crate::derives::Tokenize(tokens("struct Name { x: u8 }"))), None),
    2 => (items(crate::derives::Tokenize(tokens("union Name { x: u8 }"))), None),
    3 => (tokenize("enum", "", "Name", &[]), None),
    4 => (tokenize("pub enum", "", "Name<T: Clone>", &[a, (r#"#[regex("b")]"#, "B", "(T)")]), Some("Name<T>")),
    5 => (tokenize("enum", "", "Name<'a, T: 'a, const N: usize = 2> where T: Clone", &[a]), Some("Name<'a, T, N>")),
    _ => (items(crate::derives::Tokenize(tokens("enum { A }"))), None),
  };
  check!(got.is_some() == want.is_some());
  if let (Some(i), Some(ty)) = (&got, want) {
    check_lexer(i, ty, false);
  }
  sym::cover(got.is_some() as u32);
}

/// Any short text as an expression.
#[no_mangle]
pub extern "C" fn c25_expression() {
  sym::cpus(1);
  #[cfg(not(feature = "thorough"))]
  let (any, few) = (1, 2);
  #[cfg(feature = "thorough")]
  let (any, few) = (1, 3);
  // any text of a character, or longer ones of characters that mean something
  let re: String = if sym::range(0, 1) == 0 {
    // the tables of the lexer hash its symbols
    sym::ascii(any).bytes().map(|b| sym::concrete(b as u64) as u8 as char).collect()
  } else {
    let all: Vec<char> = "ab(?:)[^]*+.|$\\{0,}-\"é".chars().collect();
    (0..sym::range(0, few)).map(|_| all[sym::range(0, all.len() - 1)]).collect()
  };
  let skip = sym::range(0, 1) == 1;
  let bytes = sym::range(0, 1) == 1;
  let lit = Literal::string(&re);
  let attr = if skip { quote!(#[skip(#lit)]) } else { quote!(#[regex(#lit)]) };
  let pre = if bytes { quote!(#[char_type(u8)]) } else { quote!() };
  let got = items(crate::derives::Tokenize(quote!(#pre enum Name { #attr A })));
  let hir = parse(&re, Mode::Chars);
  let want = hir.as_ref().is_some_and(|h| supported(h, Mode::Chars));
  if bytes {
    // classes of characters may be refused
    check!(got.is_none() || want);
    check!(got.is_some() || !hir.is_some_and(|h| supported(&h, Mode::Bytes)));
  } else {
    check!(got.is_some() == want);
  }
  sym::cover(want as u32);
}

/// Attributes, generics and bodies of what is parsed.
#[no_mangle]
pub extern "C" fn c25_parse() {
  let attrs = [
    ("", true),
    ("#[token(Token)]", true),
    ("#[token(a::Token<Kind>)]", true),
    ("#[token(::a::Token)] #[starts_with(A)]", true),
    ("#[starts_with(A, B(1))] #[doc = \"x\"] #[token(T)]", true),
    ("#[token()]", false),
    ("#[token(1)]", false),
    ("#[token(A, B)]", false),
    ("#[token(A)] #[token(A)]", false),
    ("#[starts_with()]", false),
    ("#[starts_with(A B)]", false),
    ("#[starts_with(A)] #[starts_with(B)]", false),
  ];
  let bodies = [
    ("struct", ";", true),
    ("struct", "(A, B);", true),
    ("struct", "{ a: A, b: Vec<B> }", true),
    ("struct", "{}", true),
    ("enum", "{ A, B(C), D { e: E } }", true),
    ("enum", "{ A(A, B) }", true),
    ("enum", "{}", true),
    ("union", "{ a: A }", false),
  ];
  let generics = [("", "Name", 0), ("<T>", "Name<T>", 1), ("<'a, T: X + 'a, const N: usize>", "Name<'a, T, N>", 3), ("<const N: usize = 3>", "Name<N>", 1), ("<T: ?Sized = u8>", "Name<T>", 1)];
  let (attr, ok) = attrs[sym::range(0, attrs.len() - 1)];
  let (kind, body, fine) = bodies[sym::range(0, bodies.len() - 1)];
  let (params, ty, count) = generics[sym::range(0, generics.len() - 1)];
  let bound = if count > 0 && sym::range(0, 1) == 1 { "where [u8; 1]: Y" } else { "" };
  let decl = match body.strip_suffix(';') {
    Some(b) => format!("{attr} {kind} Name {params} {b} {bound};"),
    None => format!("{attr} {kind} Name {params} {bound} {body}"),
  };
  let got = items(crate::derives::Parse(tokens(&decl)));
  let want = ok && fine;
  check!(got.is_some() == want);
  sym::cover(want as u32);
  let i = match got {
    Some(i) => implementation(&i, "Parse", ty),
    None => return,
  };
  check!(method(&i, "parse") && method(&i, "maybe"));
  // the stream is a further parameter
  check!(i.generics.params.len() == count + 1);
  let stream = match &i.trait_.as_ref().unwrap().1.segments.last().unwrap().arguments {
    PathArguments::AngleBracketed(a) if a.args.len() == 1 => text(&a.args),
    _ => fail!(),
  };
  // nothing that is only allowed in declarations
  check!(!i.generics.params.iter().any(|p| match p {
    syn::GenericParam::Type(t) => t.default.is_some(),
    syn::GenericParam::Const(c) => c.default.is_some(),
    _ => false,
  }));
  let mut bounded = false;
  let mut kept = bound.is_empty();
  if let Some(w) = &i.generics.where_clause {
    for p in &w.predicates {
      if let syn::WherePredicate::Type(t) = p {
        if matches!(&t.bounded_ty, Type::Path(_)) && text(&t.bounded_ty) == stream {
          let b = text(&t.bounds);
          bounded |= b.contains("TokenStream") && (b.contains("Token =") == attr.contains("#[token"));
        }
      }
      kept |= text(p) == tokens("[u8; 1]: Y").to_string();
    }
  }
  for p in &i.generics.params {
    if let syn::GenericParam::Type(t) = p {
      if t.ident == stream {
        let b = text(&t.bounds);
        bounded |= b.contains("TokenStream") && (b.contains("Token =") == attr.contains("#[token"));
      }
    }
  }
  check!(bounded && kept);
}

/// What has a span.
#[no_mangle]
pub extern "C" fn c25_spanned() {
  // the fields of a part: whether there may be such
  let mut fields = || {
    let n = sym::range(0, 3);
    let named = sym::range(0, 1) == 1;
    let mut out = String::new();
    let mut sure = false;
    let mut ok = true;
    for k in 0..n {
      let attr = ["", "#[try_span]", "#[doc = \"x\"] #[try_span] #[x]", "#[try_span] #[try_span]"];
      let a = sym::range(0, if k < 2 { 3 } else { 1 });
      sure |= a == 0;
      ok &= a != 3;
      if named {
        out += &format!("{} f{k}: T{k},", attr[a]);
      } else {
        out += &format!("{} T{k},", attr[a]);
      }
    }
    (if named { format!("{{ {out} }}") } else { format!("({out})") }, named, sure && ok)
  };
  let (decl, ty, want) = match sym::range(0, 4) {
    0 => {
      let (f, named, ok) = fields();
      (format!("struct Name {f}{}", if named { "" } else { ";" }), "Name", ok)
    }
    1 => {
      let (f, _, ok) = fields();
      (format!("enum Name<T> {{ A {f}, B(T) }}"), "Name<T>", ok)
    }
    2 => {
      let (f, _, ok) = fields();
      (format!("enum Name {{ A {{ x: u8 }}, B {f} }}"), "Name", ok)
    }
    3 => {
      let (d, ok) = [("enum Name {}", false), ("enum Name { A(B), C }", false), ("struct Name;", false), ("union Name { a: A }", false), ("enum Name { A }", false)][sym::range(0, 4)];
      (d.to_string(), "Name", ok)
    }
    _ => ("struct Name<'a, T: X, const N: usize>(&'a [T; N]) where T: Y;".to_string(), "Name<'a, T, N>", true),
  };
  let got = items(crate::derives::Spanned(tokens(&decl)));
  check!(got.is_some() == want);
  if let Some(i) = got {
    check!(method(&implementation(&i, "Spanned", ty), "span"));
  }
  sym::cover(want as u32);
}

/// The text without the doubling of braces.
fn unescape(s: &str) -> String {
  s.replace("{{", "{").replace("}}", "}")
}
fn literals(ts: TokenStream, out: &mut Vec<String>) {
  for t in ts {
    match t {
      TokenTree::Group(g) => literals(g.stream(), out),
      TokenTree::Literal(l) => {
        if let Ok(s) = syn::parse2::<syn::LitStr>(TokenTree::Literal(l).into()) {
          out.push(s.value());
        }
      }
      _ => {}
    }
  }
}

/// Kinds of tokens: what they convert from and to.
#[no_mangle]
pub extern "C" fn c25_kind() {
  let (attr, plain) = [("", true), ("x", false), ("(a)", false), ("= 1", false)][sym::range(0, 3)];
  let (kind, is_enum) = [("pub enum", true), ("enum", true), ("struct", false), ("union", false)][sym::range(0, 3)];
  let vars = [("A", false), ("B(u8)", true), ("C(String, u8)", false), ("D { x: u8 }", false), ("E()", false), ("F(&'static str,)", true)];
  let mut body = String::new();
  let mut carry = 0;
  let n = sym::range(0, 2);
  for k in 0..n {
    let (v, one) = vars[sym::range(0, vars.len() - 1)];
    body += &format!("{}{}{k}{},", if k == 0 { "#[doc = \" x\"]" } else { "" }, &v[..1], &v[1..]);
    carry += one as usize;
  }
  let got = items(crate::token_kind(tokens(attr), tokens(&format!("{kind} Name {{ {body} }}"))));
  let want = plain && is_enum;
  check!(got.is_some() == want);
  sym::cover(want as u32);
  if let Some(items) = got {
    // the enumeration itself, with all its variants
    check!(items.iter().any(|i| matches!(i, Item::Enum(e) if e.ident == "Name" && e.variants.len() == n)));
    let count = |name: &str| {
      items.iter().filter(|i| matches!(i, Item::Impl(i) if i.trait_.as_ref().is_some_and(|t| t.1.segments.last().unwrap().ident == name))).count()
    };
    check!(count("From") == carry);
    check!(count("TryFrom") == 2 * carry);
    check!(count("Display") == 1);
  }
}

/// How kinds print: any documentation, any name.
#[no_mangle]
pub extern "C" fn c25_prompt() {
  let (decl, want) = match sym::range(0, 2) {
    0 => {
      // one line of text
      #[cfg(not(feature = "thorough"))]
      let t = sym::ascii(sym::range(0, 2));
      #[cfg(feature = "thorough")]
      let t = sym::ascii(sym::range(0, 3));
      let l = Literal::string(&t);
      let words = t.trim().to_ascii_lowercase();
      let want = if words.is_empty() { "ab".to_string() } else { words.strip_suffix('.').unwrap_or(&words).to_string() };
      (quote!(#[doc = #l] Ab), want)
    }
    1 => {
      // two lines
      let (s, t) = (sym::ascii(1), sym::ascii(sym::range(0, 1)));
      let (l, m) = (Literal::string(&s), Literal::string(&t));
      let words = format!("{} {}", s.trim(), t.trim()).trim().to_ascii_lowercase();
      let want = if words.is_empty() { "ab".to_string() } else { words.strip_suffix('.').unwrap_or(&words).to_string() };
      (quote!(#[doc = #l] #[other] #[doc = #m] Ab), want)
    }
    _ => {
      // a name
      let n = sym::range(1, 3);
      let mut name = String::new();
      let mut want = String::new();
      for k in 0..n {
        let c = sym::byte();
        let upper = c.is_ascii_uppercase();
        sym::assume(upper || c.is_ascii_lowercase());
        if upper && k > 0 {
          want.push(' ');
        }
        name.push(c as char);
        want.push(c.to_ascii_lowercase() as char);
      }
      // not a keyword
      sym::assume(!["as", "do", "fn", "if", "in", "box", "dyn", "for", "gen", "let", "mod", "mut", "pub", "ref", "try", "use"].contains(&&*name));
      let name = proc_macro2::Ident::new(&name, proc_macro2::Span::call_site());
      (quote!(#name), want)
    }
  };
  let carries = sym::range(0, 1) == 1;
  let fields = if carries { quote!((u8)) } else { quote!() };
  let got = match items(crate::token_kind(quote!(), quote!(enum Name { #decl #fields }))) {
    Some(i) => i,
    None => fail!(),
  };
  let mut all = vec![];
  for i in got {
    match &i {
      Item::Impl(i) if i.trait_.as_ref().is_some_and(|t| t.1.segments.last().unwrap().ident == "Display") => literals(i.to_token_stream(), &mut all),
      _ => {}
    }
  }
  let full = if carries { format!("{want} `{{}}`") } else { want.clone() };
  check!(all.iter().any(|s| {
    let s = match s.strip_suffix(" `{}`") {
      Some(t) if carries => format!("{} `{{}}`", unescape(t)),
      _ => unescape(s),
    };
    s == full
  }));
  sym::cover(0);
}

/// Types for tokens.
#[no_mangle]
pub extern "C" fn c25_ast() {
  // which part is out of the ordinary
  let part = sym::range(0, 5);
  let pick = |p: usize, n: usize| if part == p { sym::range(0, n - 1) } else { 0 };
  let attrs = [("", true), ("#[derive(Debug)] #[doc = \"x\"]", true), ("#[derive(Debug)] #[derive(Clone)]", true)];
  let viss = [("", true), ("pub", true), ("pub(crate)", true), ("pub(super)", true), ("pub(self)", true), ("pub(in a::b)", true), ("pub(in crate::a)", true), ("pub(in ::a)", false)];
  let words = [("macro", true), ("mod", false), ("", false)];
  let paths = [("Token<Kind>", true), ("a::b::Token<Kind>", true), ("crate::Token<a::Kind<u8>>", true), ("Token", false), ("Token<A, B>", false), ("Token<'a>", false), ("a::Token", false), ("Token<>", false), ("Token<A = B>", false)];
  let arms = [
    ("[a] => { kind: K::A },", 1, true),
    ("[a] => { kind: K::A, prompt: \"a\" }", 1, true),
    ("[+] => { kind: K::A(1), prompt: \"{}\", }, [b c] => { kind: K::B(_), prompt: \"b\" }", 2, true),
    ("[a] => { kind: K::A(x) if *x > 1, prompt: \"a\" }", 1, true),
    ("[a] => { kind: | K::A | K::B, prompt: \"a\" }, [b] => { kind: K::C }, [c] => { kind: K::D },", 3, true),
    ("[a] => { kind: K::A if true }", 1, false),
    ("[a] => { king: K::A }", 1, false),
    ("[a] => { kind K::A }", 1, false),
    ("[a] => { kind: K::A, promp: \"a\" }", 1, false),
    ("[a] => { kind: K::A, prompt: 1 }", 1, false),
    ("[a] => { kind: K::A, prompt: \"a\", x: 1 }", 1, false),
    ("[a] => { }", 1, false),
    ("(a) => { kind: K::A }", 1, false),
    ("[a] = { kind: K::A }", 1, false),
    ("[a] => [ kind: K::A ]", 1, false),
    ("[a] => { kind: K::A } [b] => { kind: K::B }", 2, false),
    ("[a] => { kind: K::A }, [b] => { kind: K::B if x }", 2, false),
  ];
  let (attr, ok1) = attrs[pick(0, attrs.len())];
  let (vis, ok2) = viss[pick(1, viss.len())];
  let (word, ok3) = words[pick(2, words.len())];
  let (path, ok4) = paths[pick(3, paths.len())];
  let (arm, n, ok5) = arms[if part == 5 { sym::range(0, 4) } else { pick(4, arms.len()) }];
  let tail = if part == 5 { ["", "x", ";"][sym::range(0, 2)] } else { "" };
  let want = ok1 && ok2 && ok3 && ok4 && ok5 && tail.is_empty();
  let got = items(crate::token_ast(tokens(&format!("{attr} {vis} {word} {path} {{ {arm} }} {tail}"))));
  check!(got.is_some() == want);
  sym::cover(want as u32);
  if let Some(items) = got {
    // a type for every arm, and the macro that names them
    let mut types = 0;
    let mut named = false;
    for i in &items {
      match i {
        Item::Mod(m) => types += m.content.as_ref().map_or(0, |c| c.1.iter().filter(|i| matches!(i, Item::Struct(_))).count()),
        Item::Struct(_) => types += 1,
        Item::Macro(m) => named |= m.ident.as_ref().is_some_and(|i| i == "Token"),
        _ => {}
      }
    }
    check!(types == n);
    check!(named);
  }
}
