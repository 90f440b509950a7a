//! `#[wasm_bindgen]` with the imports bound to the simulated browser.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::*;

/// The items of the `#[wasm_bindgen(...)]` attributes, and the other attributes.
fn split(attrs: &[Attribute]) -> (Vec<Meta>, Vec<Attribute>) {
    let (mut m, mut o) = (vec![], vec![]);
    for a in attrs {
        if a.path().is_ident("wasm_bindgen") {
            if let Meta::List(l) = &a.meta {
                let p = Punctuated::<Meta, Token![,]>::parse_terminated;
                m.extend(p.parse2(l.tokens.clone()).unwrap());
            }
        } else {
            o.push(a.clone());
        }
    }
    (m, o)
}
fn has(m: &[Meta], n: &str) -> bool {
    m.iter().any(|x| x.path().is_ident(n))
}
fn value(m: &[Meta], n: &str) -> Option<Expr> {
    m.iter().find_map(|x| match x {
        Meta::NameValue(v) if v.path.is_ident(n) => Some(v.value.clone()),
        _ => None,
    })
}
fn text(e: Expr) -> String {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
        e => quote!(#e).to_string(),
    }
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, item: TokenStream) -> TokenStream {
    let item: Item = parse_macro_input!(item);
    match item {
        Item::ForeignMod(f) => foreign(f).into(),
        Item::Impl(mut i) => {
            let ty = i.self_ty.clone();
            let mut getters = vec![];
            for x in &mut i.items {
                if let ImplItem::Fn(f) = x {
                    let (m, o) = split(&f.attrs);
                    f.attrs = o;
                    if has(&m, "getter") {
                        let n = f.sig.ident.clone();
                        let s = n.to_string();
                        getters.push(quote!((#s.to_string(), v.#n().into())));
                    }
                }
            }
            quote! {
                #i
                impl From<#ty> for ::wasm_bindgen::JsValue {
                    fn from(v: #ty) -> Self {
                        ::wasm_bindgen::JsValue::object(vec![#(#getters),*])
                    }
                }
            }
            .into()
        }
        Item::Struct(mut s) => {
            s.attrs = split(&s.attrs).1;
            quote!(#s).into()
        }
        other => quote!(#other).into(),
    }
}

fn foreign(f: ItemForeignMod) -> proc_macro2::TokenStream {
    let mut out = quote!();
    for i in f.items {
        match i {
            ForeignItem::Type(t) => {
                let (m, attrs) = split(&t.attrs);
                let (vis, name) = (t.vis, t.ident);
                let parent = value(&m, "extends").map(|e| quote!(#e)).unwrap_or(quote!(::wasm_bindgen::JsValue));
                out.extend(quote! {
                    #(#attrs)*
                    #vis struct #name { obj: #parent }
                    impl From<::wasm_bindgen::JsValue> for #name {
                        fn from(v: ::wasm_bindgen::JsValue) -> Self { Self { obj: v.into() } }
                    }
                    impl From<#name> for ::wasm_bindgen::JsValue {
                        fn from(v: #name) -> Self { v.obj.into() }
                    }
                    impl AsRef<::wasm_bindgen::JsValue> for #name {
                        fn as_ref(&self) -> &::wasm_bindgen::JsValue { self.obj.as_ref() }
                    }
                    impl std::ops::Deref for #name {
                        type Target = #parent;
                        fn deref(&self) -> &#parent { &self.obj }
                    }
                });
            }
            ForeignItem::Fn(f) => {
                let (m, attrs) = split(&f.attrs);
                let (vis, sig) = (f.vis, f.sig);
                let name = &sig.ident;
                let js = value(&m, "js_name").map(text).unwrap_or(name.to_string());
                let ret = &sig.output;
                let mut args = sig.inputs.iter();
                if !has(&m, "method") {
                    let (a, asy) = (&sig.inputs, &sig.asyncness);
                    let names = a.iter().map(|x| match x {
                        FnArg::Typed(t) => t.pat.clone(),
                        _ => panic!(),
                    });
                    let call = quote!(::wasm_bindgen::sim::global(#js, vec![#(#names.into()),*]));
                    // the promise of an asynchronous one must not be rejected
                    let call = if asy.is_some() { quote!(::wasm_bindgen::sim::settled(#call).await) } else { call };
                    let body = if matches!(ret, ReturnType::Default) { quote!(#call;) } else { quote!(#call.into()) };
                    out.extend(quote! { #(#attrs)* #[allow(unused)] #vis #asy fn #name(#a) #ret { #body } });
                    continue;
                }
                let Some(FnArg::Typed(this)) = args.next() else { panic!("method without this") };
                let Type::Reference(this) = &*this.ty else { panic!("this is not a reference") };
                let class = &this.elem;
                let (mut params, mut vals) = (vec![], vec![]);
                for (i, a) in args.enumerate() {
                    let FnArg::Typed(a) = a else { panic!() };
                    let (n, t) = (format_ident!("a{}", i), &a.ty);
                    params.push(quote!(#n: #t));
                    vals.push(quote!(#n.into()));
                }
                let call = if has(&m, "getter") {
                    quote!(::wasm_bindgen::sim::get(self.as_ref(), #js))
                } else {
                    quote!(::wasm_bindgen::sim::call(self.as_ref(), #js, vec![#(#vals),*]))
                };
                let body = if matches!(ret, ReturnType::Default) { quote!(#call;) } else { quote!(#call.into()) };
                out.extend(quote! {
                    impl #class {
                        #(#attrs)*
                        #[allow(unused)]
                        #vis fn #name(&self, #(#params),*) #ret { #body }
                    }
                });
            }
            _ => {}
        }
    }
    out
}

#[proc_macro_attribute]
pub fn command(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

// ---- yew

/// What a piece of `html!` shows.
enum Node {
    Expr(proc_macro2::TokenStream),
}
fn nodes(input: parse::ParseStream) -> Result<Vec<Node>> {
    let mut v = vec![];
    while !input.is_empty() && !(input.peek(Token![<]) && input.peek2(Token![/])) {
        v.push(node(input)?);
    }
    Ok(v)
}
fn list(v: Vec<Node>) -> proc_macro2::TokenStream {
    let v = v.into_iter().map(|Node::Expr(e)| e);
    quote!(::yew::Html::List(vec![#(#v),*]))
}
fn block(input: parse::ParseStream) -> Result<proc_macro2::TokenStream> {
    let b;
    braced!(b in input);
    Ok(list(nodes(&b)?))
}
fn condition(input: parse::ParseStream) -> Result<proc_macro2::TokenStream> {
    input.parse::<Token![if]>()?;
    let c = input.call(Expr::parse_without_eager_brace)?;
    let t = block(input)?;
    let e = if input.peek(Token![else]) {
        input.parse::<Token![else]>()?;
        if input.peek(Token![if]) {
            condition(input)?
        } else {
            block(input)?
        }
    } else {
        quote!(::yew::Html::Nothing)
    };
    Ok(quote!(if #c { #t } else { #e }))
}
fn node(input: parse::ParseStream) -> Result<Node> {
    if input.peek(Token![if]) {
        let c = condition(input)?;
        return Ok(Node::Expr(quote!({ #c })));
    }
    if input.peek(Token![for]) {
        input.parse::<Token![for]>()?;
        let p = Pat::parse_multi(input)?;
        input.parse::<Token![in]>()?;
        let i = input.call(Expr::parse_without_eager_brace)?;
        let b = block(input)?;
        return Ok(Node::Expr(quote!(::yew::Html::List(::std::iter::IntoIterator::into_iter(#i).map(|#p| #b).collect()))));
    }
    if input.peek(token::Brace) {
        let b;
        braced!(b in input);
        if b.is_empty() {
            return Ok(Node::Expr(quote!(::yew::Html::Nothing)));
        }
        if b.peek(Token![for]) {
            b.parse::<Token![for]>()?;
            let i: Expr = b.parse()?;
            return Ok(Node::Expr(quote!((#i).collect::<::yew::Html>())));
        }
        let s = b.call(Block::parse_within)?;
        return Ok(Node::Expr(quote!(::yew::IntoHtml::into_html({ #(#s)* }))));
    }
    if input.peek(Lit) {
        let l: Lit = input.parse()?;
        return Ok(Node::Expr(quote!(::yew::IntoHtml::into_html(#l))));
    }
    input.parse::<Token![<]>()?;
    if input.peek(Token![>]) {
        input.parse::<Token![>]>()?;
        let c = list(nodes(input)?);
        input.parse::<Token![<]>()?;
        input.parse::<Token![/]>()?;
        input.parse::<Token![>]>()?;
        return Ok(Node::Expr(c));
    }
    let path: Path = input.parse()?;
    let (mut names, mut vals) = (vec![], vec![]);
    while !input.peek(Token![>]) && !input.peek(Token![/]) {
        if input.peek(token::Brace) {
            let b;
            braced!(b in input);
            let e: Ident = b.parse()?;
            names.push(e.clone());
            vals.push(quote!(#e));
            continue;
        }
        input.peek(Token![~]).then(|| input.parse::<Token![~]>());
        let mut n = input.call(<Ident as ext::IdentExt>::parse_any)?;
        while input.peek(Token![-]) {
            input.parse::<Token![-]>()?;
            n = input.call(<Ident as ext::IdentExt>::parse_any)?;
        }
        input.parse::<Token![=]>()?;
        names.push(n);
        vals.push(if input.peek(token::Brace) {
            let b;
            braced!(b in input);
            let s = b.call(Block::parse_within)?;
            match &s[..] {
                [Stmt::Expr(e, None)] => quote!(#e),
                _ => quote!({ #(#s)* }),
            }
        } else {
            let l: Lit = input.parse()?;
            quote!(#l)
        });
    }
    let mut children = vec![];
    if input.peek(Token![/]) {
        input.parse::<Token![/]>()?;
        input.parse::<Token![>]>()?;
    } else {
        input.parse::<Token![>]>()?;
        children = nodes(input)?;
        input.parse::<Token![<]>()?;
        input.parse::<Token![/]>()?;
        input.parse::<Path>()?;
        input.parse::<Token![>]>()?;
    }
    let tag = path.get_ident().map(|i| i.to_string()).filter(|s| s.starts_with(|c: char| c.is_ascii_lowercase()));
    if let Some(tag) = tag {
        // attributes of plain elements are not looked at
        let c = list(children);
        return Ok(Node::Expr(quote!(::yew::Html::Elem(#tag, ::std::default::Default::default(), ::std::boxed::Box::new(#c)))));
    }
    let (mut n2, mut v2) = (vec![], vec![]);
    for (n, v) in names.into_iter().zip(vals) {
        if n != "key" && n != "ref" {
            n2.push(n);
            v2.push(v);
        }
    }
    let c = if children.is_empty() {
        quote!()
    } else {
        let l = list(children);
        quote!(.children(#l))
    };
    Ok(Node::Expr(quote! {
        ::yew::component::<#path>(<<#path as ::yew::Component>::Properties as ::yew::Properties>::builder()#(.#n2(#v2))*#c.build())
    }))
}

struct Root(Vec<Node>);
impl parse::Parse for Root {
    fn parse(input: parse::ParseStream) -> Result<Self> {
        nodes(input).map(Root)
    }
}
#[proc_macro]
pub fn html(input: TokenStream) -> TokenStream {
    let Root(v) = parse_macro_input!(input);
    list(v).into()
}

#[proc_macro_derive(Properties, attributes(prop_or, prop_or_default, prop_or_else))]
pub fn properties(input: TokenStream) -> TokenStream {
    let s: ItemStruct = parse_macro_input!(input);
    let (name, vis) = (&s.ident, &s.vis);
    let builder = format_ident!("{}Builder", name);
    let (ig, tg, wh) = s.generics.split_for_impl();
    let g = &s.generics;
    let f: Vec<_> = s.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    let t: Vec<_> = s.fields.iter().map(|f| f.ty.clone()).collect();
    let d: Vec<_> = s
        .fields
        .iter()
        .map(|f| {
            for a in &f.attrs {
                if a.path().is_ident("prop_or_default") {
                    return quote!(unwrap_or_default());
                } else if a.path().is_ident("prop_or") {
                    let e: Expr = a.parse_args().unwrap();
                    return quote!(unwrap_or(#e));
                } else if a.path().is_ident("prop_or_else") {
                    let e: Expr = a.parse_args().unwrap();
                    return quote!(unwrap_or_else(#e));
                }
            }
            quote!(expect("a required property is missing"))
        })
        .collect();
    quote! {
        #vis struct #builder #g #wh { #(#f: Option<#t>),* }
        #[allow(unused)]
        impl #ig #builder #tg #wh {
            #(pub fn #f(mut self, v: impl ::yew::html::IntoPropValue<#t>) -> Self {
                self.#f = Some(v.into_prop_value());
                self
            })*
            pub fn build(self) -> #name #tg {
                #name { #(#f: self.#f.#d),* }
            }
        }
        impl #ig ::yew::Properties for #name #tg #wh {
            type Builder = #builder #tg;
            fn builder() -> Self::Builder {
                #builder { #(#f: None),* }
            }
        }
    }
    .into()
}
