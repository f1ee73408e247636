use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::ext::IdentExt;
use syn::parse::{Parse, ParseStream};
use syn::*;

struct Nodes(Vec<TokenStream>);
impl Parse for Nodes {
    fn parse(i: ParseStream) -> Result<Self> {
        let mut v = vec![];
        while !i.is_empty() && !(i.peek(Token![<]) && i.peek2(Token![/])) {
            v.push(node(i)?);
        }
        Ok(Nodes(v))
    }
}
impl Nodes {
    fn html(&self) -> TokenStream {
        let n = &self.0;
        quote!(::yew::Html::List(vec![#(#n),*]))
    }
}

fn node(i: ParseStream) -> Result<TokenStream> {
    if i.peek(Token![<]) {
        element(i)
    } else if i.peek(Token![if]) {
        condition(i)
    } else if i.peek(token::Brace) {
        let c;
        braced!(c in i);
        if c.peek(Token![for]) {
            c.parse::<Token![for]>()?;
            let e: Expr = c.parse()?;
            return Ok(quote!(::yew::Html::List((#e).into_iter().map(|x| ::yew::ToHtml::to_html(x)).collect())));
        }
        if c.is_empty() {
            return Ok(quote!(::yew::Html::List(vec![])));
        }
        let b = c.call(Block::parse_within)?;
        Ok(quote!(::yew::ToHtml::to_html({ #(#b)* })))
    } else {
        let l: Lit = i.parse()?;
        Ok(quote!(::yew::ToHtml::to_html(#l)))
    }
}

fn condition(i: ParseStream) -> Result<TokenStream> {
    i.parse::<Token![if]>()?;
    let cond = i.call(Expr::parse_without_eager_brace)?;
    let c;
    braced!(c in i);
    let then = c.parse::<Nodes>()?.html();
    let els = if i.peek(Token![else]) {
        i.parse::<Token![else]>()?;
        if i.peek(Token![if]) {
            condition(i)?
        } else {
            let c;
            braced!(c in i);
            c.parse::<Nodes>()?.html()
        }
    } else {
        quote!(::yew::Html::List(vec![]))
    };
    Ok(quote!(if #cond { #then } else { #els }))
}

fn element(i: ParseStream) -> Result<TokenStream> {
    i.parse::<Token![<]>()?;
    if i.peek(Token![>]) {
        i.parse::<Token![>]>()?;
        let n: Nodes = i.parse()?;
        i.parse::<Token![<]>()?;
        i.parse::<Token![/]>()?;
        i.parse::<Token![>]>()?;
        return Ok(n.html());
    }
    let path: Path = i.parse()?;
    let mut attrs = vec![];
    let mut base = None;
    while !i.peek(Token![>]) && !i.peek(Token![/]) {
        if i.peek(Token![..]) {
            i.parse::<Token![..]>()?;
            base = Some(i.parse::<Expr>()?);
            continue;
        }
        if i.peek(token::Brace) {
            let c;
            braced!(c in i);
            let id: Ident = c.parse()?;
            attrs.push((id.to_string(), quote!(#id)));
            continue;
        }
        let mut name = i.call(Ident::parse_any)?.to_string();
        while i.peek(Token![-]) {
            i.parse::<Token![-]>()?;
            name += "_";
            name += &i.call(Ident::parse_any)?.to_string();
        }
        i.parse::<Token![=]>()?;
        let v = if i.peek(token::Brace) {
            let c;
            braced!(c in i);
            let b = c.call(Block::parse_within)?;
            quote!({ #(#b)* })
        } else {
            let l: Lit = i.parse()?;
            quote!(#l)
        };
        attrs.push((name, v));
    }
    let children = if i.peek(Token![/]) {
        i.parse::<Token![/]>()?;
        i.parse::<Token![>]>()?;
        vec![]
    } else {
        i.parse::<Token![>]>()?;
        let n: Nodes = i.parse()?;
        i.parse::<Token![<]>()?;
        i.parse::<Token![/]>()?;
        i.parse::<Path>()?;
        i.parse::<Token![>]>()?;
        n.0
    };
    let plain = path.get_ident().map(|x| x.to_string()).filter(|s| s.starts_with(|c: char| c.is_lowercase()));
    if let Some(tag) = plain {
        let mut other = vec![];
        let mut click = quote!(None);
        for (n, v) in &attrs {
            if n == "onclick" {
                click = quote!(Some(::yew::IntoPropValue::<::yew::Callback<::yew::MouseEvent>>::into_prop_value(#v)));
            } else {
                other.push(quote!(let _ = &(#v);));
            }
        }
        return Ok(quote!({
            #(#other)*
            ::yew::Html::Element { tag: #tag, onclick: #click, disabled: false, children: vec![#(#children),*] }
        }));
    }
    // generics of a path in an expression need a turbofish; as a type they don't
    let set = attrs.iter().filter(|(n, _)| n != "key").map(|(n, v)| {
        let id = format_ident!("{}", n);
        quote!(b.#id(#v);)
    });
    let kids = (!children.is_empty()).then(|| quote!(b.children(::yew::Children::new(vec![#(#children),*]));));
    let props = match base {
        Some(b) => quote!(#b),
        None => quote!({
            #[allow(unused_mut)]
            let mut b = <<#path as ::yew::Component>::Properties as ::yew::Properties>::builder();
            #(#set)*
            #kids
            ::yew::PropsBuilder::build(b)
        }),
    };
    Ok(quote!(::yew::component::<#path>(#props)))
}

pub fn expand(t: TokenStream) -> Result<TokenStream> {
    let n: Nodes = parse2(t)?;
    Ok(match &n.0[..] {
        [one] => one.clone(),
        _ => n.html(),
    })
}

pub fn properties(t: TokenStream) -> Result<TokenStream> {
    let d: DeriveInput = parse2(t)?;
    let (id, vis) = (&d.ident, &d.vis);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let Data::Struct(DataStruct { fields: Fields::Named(f), .. }) = &d.data else {
        return Err(Error::new_spanned(id, "not supported"));
    };
    let b = format_ident!("{}Builder", id);
    let generics = &d.generics;
    let names: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
    let tys: Vec<_> = f.named.iter().map(|f| &f.ty).collect();
    let finish = f.named.iter().map(|f| {
        let n = f.ident.as_ref().unwrap();
        let of = |k: &str| f.attrs.iter().find(|a| a.path().is_ident(k));
        let expr = |a: &Attribute| match &a.meta {
            Meta::List(l) => l.tokens.clone(),
            _ => quote!(),
        };
        let missing = format!("property {n} is missing");
        if of("prop_or_default").is_some() {
            quote!(#n: self.#n.unwrap_or_default())
        } else if let Some(a) = of("prop_or") {
            let e = expr(a);
            quote!(#n: self.#n.unwrap_or_else(|| #e))
        } else if let Some(a) = of("prop_or_else") {
            let e = expr(a);
            quote!(#n: self.#n.unwrap_or_else(#e))
        } else {
            quote!(#n: self.#n.expect(#missing))
        }
    });
    Ok(quote! {
        #vis struct #b #generics #wc { #(#names: Option<#tys>),* }
        impl #ig #b #tg #wc {
            #(
                #[allow(dead_code)]
                #vis fn #names(&mut self, v: impl ::yew::IntoPropValue<#tys>) {
                    self.#names = Some(v.into_prop_value());
                }
            )*
        }
        impl #ig ::yew::PropsBuilder for #b #tg #wc {
            type Props = #id #tg;
            fn build(self) -> #id #tg { #id { #(#finish),* } }
        }
        impl #ig ::yew::Properties for #id #tg #wc {
            type Builder = #b #tg;
            fn builder() -> #b #tg { #b { #(#names: None),* } }
        }
    })
}

pub fn function_component(name: TokenStream, t: TokenStream) -> Result<TokenStream> {
    let mut f: ItemFn = parse2(t)?;
    if !name.is_empty() {
        f.sig.ident = parse2(name)?;
    }
    let (vis, id, body) = (&f.vis, &f.sig.ident, &f.block);
    let attrs = &f.attrs;
    let generics = &f.sig.generics;
    let (ig, tg, wc) = generics.split_for_impl();
    let params: Vec<_> = generics.type_params().map(|p| &p.ident).collect();
    let (props, bind) = match f.sig.inputs.first() {
        None => (quote!(()), quote!()),
        Some(FnArg::Typed(p)) => {
            let Type::Reference(r) = &*p.ty else { return Err(Error::new_spanned(p, "expected a reference")) };
            let (t, n) = (&r.elem, &p.pat);
            (quote!(#t), quote!(let #n: &#t = ctx.props();))
        }
        Some(o) => return Err(Error::new_spanned(o, "not supported")),
    };
    Ok(quote! {
        #(#attrs)*
        #vis struct #id #generics (std::marker::PhantomData<(#(#params,)*)>) #wc;
        impl #ig ::yew::Component for #id #tg #wc {
            type Message = ();
            type Properties = #props;
            fn create(_: &::yew::Context<Self>) -> Self { Self(std::marker::PhantomData) }
            #[allow(unused_variables)]
            fn view(&self, ctx: &::yew::Context<Self>) -> ::yew::Html {
                #bind
                #body
            }
        }
    })
}
