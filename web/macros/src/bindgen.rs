use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::{punctuated::Punctuated, *};

/// An argument of the attribute: `name` or `name = value`.
struct Arg(String, Option<Expr>);
impl Parse for Arg {
    fn parse(i: ParseStream) -> Result<Self> {
        let name = i.call(syn::ext::IdentExt::parse_any).map(|x: Ident| x.to_string())?;
        let v = if i.peek(Token![=]) {
            i.parse::<Token![=]>()?;
            Some(i.parse::<Expr>()?)
        } else if i.peek(token::Paren) {
            let c;
            parenthesized!(c in i);
            c.parse::<TokenStream>()?;
            None
        } else {
            None
        };
        Ok(Arg(name, v))
    }
}
struct Args(Vec<Arg>);
impl Args {
    fn parse(t: TokenStream) -> Result<Self> {
        use syn::parse::Parser;
        Ok(Args(Punctuated::<Arg, Token![,]>::parse_terminated.parse2(t)?.into_iter().collect()))
    }
    fn of(attrs: &[Attribute]) -> Result<Self> {
        let mut all = vec![];
        for a in attrs {
            if a.path().is_ident("wasm_bindgen") {
                if let Meta::List(l) = &a.meta {
                    all.extend(Args::parse(l.tokens.clone())?.0);
                }
            }
        }
        Ok(Args(all))
    }
    fn has(&self, n: &str) -> bool {
        self.0.iter().any(|a| a.0 == n)
    }
    fn str(&self, n: &str) -> Option<String> {
        self.0.iter().find(|a| a.0 == n).and_then(|a| match &a.1 {
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => Some(s.value()),
            Some(Expr::Path(p)) => p.path.get_ident().map(|i| i.to_string()),
            _ => None,
        })
    }
}
fn others(attrs: &[Attribute]) -> Vec<Attribute> {
    attrs.iter().filter(|a| !a.path().is_ident("wasm_bindgen")).cloned().collect()
}

pub fn expand(attr: TokenStream, item: TokenStream) -> Result<TokenStream> {
    let top = Args::parse(attr)?;
    match parse2::<Item>(item)? {
        Item::ForeignMod(m) => {
            let module = top.str("module").unwrap_or_default();
            let mut out = TokenStream::new();
            for i in m.items {
                out.extend(match i {
                    ForeignItem::Type(t) => foreign_type(t)?,
                    ForeignItem::Fn(f) => foreign_fn(f, &module)?,
                    o => return Err(Error::new_spanned(o, "not supported")),
                });
            }
            Ok(out)
        }
        // exported types: reached from outside through their getters
        Item::Struct(mut s) => {
            s.attrs = others(&s.attrs);
            for f in &mut s.fields {
                f.attrs = others(&f.attrs);
            }
            let n = &s.ident;
            Ok(quote! {
                #s
                impl From<#n> for ::wasm_bindgen::JsValue {
                    fn from(v: #n) -> Self { ::wasm_bindgen::JsValue::obj(v) }
                }
            })
        }
        Item::Impl(mut im) => {
            let ty = im.self_ty.clone();
            let mut getters = vec![];
            for i in &mut im.items {
                if let ImplItem::Fn(f) = i {
                    let a = Args::of(&f.attrs)?;
                    f.attrs = others(&f.attrs);
                    if a.has("getter") {
                        let id = &f.sig.ident;
                        let js = a.str("js_name").or(a.str("getter")).unwrap_or(id.to_string());
                        getters.push(quote!(#js => Some(::wasm_bindgen::JsValue::from(self.#id())),));
                    }
                }
            }
            let name = quote!(#ty).to_string();
            Ok(quote! {
                #im
                impl ::wasm_bindgen::rt::Host for #ty {
                    fn class(&self) -> &'static str { #name }
                    fn get(&self, name: &str) -> Option<::wasm_bindgen::JsValue> {
                        match name { #(#getters)* _ => None }
                    }
                    fn any(&self) -> &dyn std::any::Any { self }
                }
            })
        }
        Item::Fn(mut f) => {
            f.attrs = others(&f.attrs);
            Ok(quote!(#f))
        }
        o => Err(Error::new_spanned(o, "not supported")),
    }
}

fn foreign_type(t: ForeignItemType) -> Result<TokenStream> {
    let args = Args::of(&t.attrs)?;
    let attrs = others(&t.attrs);
    let (vis, id) = (&t.vis, &t.ident);
    let parents: Vec<&Expr> = args.0.iter().filter(|a| a.0 == "extends").filter_map(|a| a.1.as_ref()).collect();
    let base = match parents.first() {
        Some(p) => quote!(#p),
        None => quote!(::wasm_bindgen::JsValue),
    };
    let class = args.str("js_name").unwrap_or(id.to_string());
    let up = parents.iter().map(|p| {
        quote! {
            impl AsRef<#p> for #id {
                // every such type is a transparent JsValue
                fn as_ref(&self) -> &#p { unsafe { &*(self as *const #id as *const #p) } }
            }
            impl From<#id> for #p {
                fn from(v: #id) -> Self { <#p>::from(::wasm_bindgen::JsValue::from(v)) }
            }
        }
    });
    Ok(quote! {
        #(#attrs)*
        #[repr(transparent)]
        #vis struct #id { obj: #base }
        impl From<::wasm_bindgen::JsValue> for #id {
            fn from(v: ::wasm_bindgen::JsValue) -> Self { #id { obj: <#base>::from(v) } }
        }
        impl From<#id> for ::wasm_bindgen::JsValue {
            fn from(v: #id) -> Self { ::wasm_bindgen::JsValue::from(v.obj) }
        }
        impl From<&#id> for ::wasm_bindgen::JsValue {
            fn from(v: &#id) -> Self { AsRef::<::wasm_bindgen::JsValue>::as_ref(v).clone() }
        }
        impl AsRef<::wasm_bindgen::JsValue> for #id {
            fn as_ref(&self) -> &::wasm_bindgen::JsValue { unsafe { &*(self as *const #id as *const ::wasm_bindgen::JsValue) } }
        }
        impl std::ops::Deref for #id {
            type Target = #base;
            fn deref(&self) -> &#base { &self.obj }
        }
        impl ::wasm_bindgen::JsCast for #id {
            fn unchecked_from_js(v: ::wasm_bindgen::JsValue) -> Self { #id::from(v) }
            fn unchecked_from_js_ref(v: &::wasm_bindgen::JsValue) -> &Self { unsafe { &*(v as *const ::wasm_bindgen::JsValue as *const #id) } }
            fn instanceof(v: &::wasm_bindgen::JsValue) -> bool { v.instance_of(#class) }
        }
        impl ::wasm_bindgen::rt::FromJs for #id {
            fn from_js(v: ::wasm_bindgen::JsValue) -> Self { #id::from(v) }
        }
        impl std::fmt::Debug for #id {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                std::fmt::Debug::fmt(AsRef::<::wasm_bindgen::JsValue>::as_ref(self), f)
            }
        }
        #(#up)*
    })
}

fn foreign_fn(f: ForeignItemFn, module: &str) -> Result<TokenStream> {
    let args = Args::of(&f.attrs)?;
    let attrs = others(&f.attrs);
    let (vis, id) = (&f.vis, &f.sig.ident);
    let js = args.str("js_name").unwrap_or(id.to_string());
    let catch = args.has("catch");
    let ret = match &f.sig.output {
        ReturnType::Default => quote!(()),
        ReturnType::Type(_, t) => quote!(#t),
    };
    let mut params = vec![];
    for p in &f.sig.inputs {
        match p {
            FnArg::Typed(p) => params.push(p.clone()),
            o => return Err(Error::new_spanned(o, "self is not supported")),
        }
    }
    let this = args.has("method").then(|| params.remove(0));
    let names: Vec<_> = (0..params.len()).map(|i| format_ident!("a{i}")).collect();
    let tys: Vec<_> = params.iter().map(|p| &p.ty).collect();
    let list = quote!(&[#(::wasm_bindgen::JsValue::from(#names)),*]);
    let rt = quote!(::wasm_bindgen::rt);
    // the value of the expression `r: Result<JsValue, JsValue>` as the declared type
    let finish = if catch {
        quote!(r.map(#rt::FromJs::from_js))
    } else {
        quote!(#rt::FromJs::from_js(#rt::uncaught(r)))
    };
    let asy = &f.sig.asyncness;
    let wait = asy.map(|_| quote!(let r = #rt::JsFuture::new(#rt::uncaught(r)).await;));
    if let Some(this) = this {
        let Type::Reference(r) = &*this.ty else { return Err(Error::new_spanned(this, "expected a reference")) };
        let ty = &r.elem;
        let body = if args.has("getter") {
            let js = args.str("getter").unwrap_or(js);
            quote!(#rt::get(self.as_ref(), #js))
        } else {
            quote!(#rt::call(self.as_ref(), #js, #list))
        };
        return Ok(quote! {
            impl #ty {
                #(#attrs)*
                #vis #asy fn #id(&self, #(#names: #tys),*) -> #ret {
                    let r: Result<::wasm_bindgen::JsValue, ::wasm_bindgen::JsValue> = #body;
                    #wait
                    #finish
                }
            }
        });
    }
    Ok(quote! {
        #(#attrs)*
        #[allow(non_snake_case)]
        #vis #asy fn #id(#(#names: #tys),*) -> #ret {
            let r: Result<::wasm_bindgen::JsValue, ::wasm_bindgen::JsValue> = Ok(#rt::world::import(#module, #js, #list));
            #wait
            #finish
        }
    })
}
