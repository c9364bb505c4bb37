//! Stand-ins for the macros of pyo3: they leave the code as it is and add tables of its classes,
//! methods and conversions, through which the stand-in for the interpreter calls it.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::{format_ident, quote, ToTokens};
use syn::{parse_macro_input, Attribute, Data, DeriveInput, FnArg, ImplItem, ItemFn, ItemImpl, ItemStruct, Pat, ReturnType, Type};

fn is(a: &Attribute, names: &[&str]) -> bool {
    a.path().segments.last().is_some_and(|s| names.iter().any(|n| s.ident == n))
}

const OURS: [&str; 11] = ["pyo3", "getter", "setter", "new", "classmethod", "staticmethod", "classattr", "args", "name", "text_signature", "pyfunction"];

/// `key` or `key = value` among the comma-separated arguments of an attribute.
fn option(args: &T2, key: &str) -> Option<String> {
    let s = args.to_string();
    let mut depth = 0;
    let mut parts = vec![String::new()];
    for c in s.chars() {
        match c {
            '(' | '[' => depth += 1,
            ')' | ']' => depth -= 1,
            _ => {}
        }
        if c == ',' && depth == 0 {
            parts.push(String::new());
        } else {
            parts.last_mut().unwrap().push(c);
        }
    }
    parts.iter().find_map(|p| {
        let (k, v) = p.split_once('=').unwrap_or((p, ""));
        (k.trim() == key).then(|| v.trim().trim_matches('"').to_string())
    })
}

#[proc_macro_attribute]
pub fn pyclass(attr: TokenStream, item: TokenStream) -> TokenStream {
    let attr: T2 = attr.into();
    let mut s = parse_macro_input!(item as ItemStruct);
    let id = s.ident.clone();
    let name = option(&attr, "name").unwrap_or_else(|| id.to_string());
    let all = option(&attr, "get_all").is_some();
    let eq = if option(&attr, "eq").is_some() {
        quote!(Some(|a: &::pyo3::Obj, b: &::pyo3::Obj| Ok(a.instance_ref::<#id>()? == b.instance_ref::<#id>()?)))
    } else {
        quote!(None)
    };
    let mut getters = vec![];
    for f in s.fields.iter_mut() {
        let marked = f.attrs.iter().any(|a| is(a, &["pyo3"]) && a.to_token_stream().to_string().contains("get"));
        f.attrs.retain(|a| !is(a, &OURS));
        if let (Some(fid), true) = (&f.ident, all || marked) {
            let n = fid.to_string();
            getters.push(quote! {
                ::pyo3::rt::Method {
                    name: #n,
                    kind: ::pyo3::rt::How::Getter,
                    call: |this: &::pyo3::Obj, _: &::pyo3::rt::Args| {
                        ::pyo3::rt::into_obj(this.instance_ref::<#id>()?.#fid.clone(), ::pyo3::rt::token())
                    },
                }
            });
        }
    }
    quote! {
        #s
        impl ::pyo3::rt::PyClass for #id {
            const NAME: &'static str = #name;
            fn fields() -> Vec<::pyo3::rt::Method> {
                vec![#(#getters),*]
            }
            fn eq() -> Option<fn(&::pyo3::Obj, &::pyo3::Obj) -> ::pyo3::PyResult<bool>> {
                #eq
            }
        }
        impl<'py> ::pyo3::IntoPyObject<'py> for #id {
            type Target = ::pyo3::PyAny;
            type Output = ::pyo3::Bound<'py, ::pyo3::PyAny>;
            type Error = ::pyo3::PyErr;
            fn into_pyobject(self, _py: ::pyo3::Python<'py>) -> Result<Self::Output, Self::Error> {
                Ok(::pyo3::Bound::of(::pyo3::Obj::instance(self)))
            }
        }
    }
    .into()
}

fn last(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}

/// `Option<&X>` of a class.
fn option_ref(t: &Type) -> Option<Type> {
    let Type::Path(p) = t else { return None };
    let s = p.path.segments.last()?;
    if s.ident != "Option" {
        return None;
    }
    let syn::PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    match a.args.first()? {
        syn::GenericArgument::Type(Type::Reference(r)) if last(&r.elem) != "str" => Some((*r.elem).clone()),
        _ => None,
    }
}

struct Sig {
    /// Name, keyword only, default.
    params: Vec<(String, bool, Option<T2>)>,
}

/// The `signature = (...)` of a `pyo3` attribute.
fn signature(attrs: &[Attribute]) -> Option<Sig> {
    for a in attrs.iter().filter(|a| is(a, &["pyo3"])) {
        let syn::Meta::List(l) = &a.meta else { continue };
        let toks: Vec<proc_macro2::TokenTree> = l.tokens.clone().into_iter().collect();
        for w in toks.windows(3) {
            let (proc_macro2::TokenTree::Ident(i), proc_macro2::TokenTree::Group(g)) = (&w[0], &w[2]) else { continue };
            if i != "signature" {
                continue;
            }
            let mut parts: Vec<Vec<proc_macro2::TokenTree>> = vec![vec![]];
            for t in g.stream() {
                match &t {
                    proc_macro2::TokenTree::Punct(p) if p.as_char() == ',' => parts.push(vec![]),
                    _ => parts.last_mut().unwrap().push(t),
                }
            }
            let mut kw = false;
            let mut params = vec![];
            for p in parts.into_iter().filter(|p| !p.is_empty()) {
                match p[0].to_string().as_str() {
                    "*" => kw = true,
                    "/" => {}
                    n => {
                        let d: T2 = p.iter().skip(2).cloned().collect();
                        params.push((n.to_string(), kw, (p.len() > 2).then_some(d)));
                    }
                }
            }
            return Some(Sig { params });
        }
    }
    None
}

#[proc_macro_attribute]
pub fn pymethods(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut imp = parse_macro_input!(item as ItemImpl);
    let ty = imp.self_ty.clone();
    let mut methods = vec![];
    let mut getbuffer = quote!(None);
    let mut releasebuffer = quote!(None);
    for it in imp.items.iter_mut() {
        let ImplItem::Fn(f) = it else { continue };
        let id = f.sig.ident.clone();
        let has = |n: &str| f.attrs.iter().any(|a| is(a, &[n]));
        let (getter, new, class, stat) = (has("getter"), has("new"), has("classmethod"), has("staticmethod"));
        let sig = signature(&f.attrs);
        let mut name = id.to_string();
        for a in &f.attrs {
            if let (true, syn::Meta::List(l)) = (is(a, &["getter"]), &a.meta) {
                name = l.tokens.to_string();
            }
            if let (true, syn::Meta::List(l)) = (is(a, &["pyo3"]), &a.meta) {
                if let Some(n) = option(&l.tokens, "name") {
                    name = n;
                }
            }
        }
        if getter {
            name = name.trim_start_matches("get_").to_string();
        }
        f.attrs.retain(|a| !is(a, &OURS));
        if id == "__getbuffer__" {
            getbuffer = quote! {
                Some(|this: &::pyo3::Obj, view: *mut ::pyo3::ffi::Py_buffer, flags: ::std::os::raw::c_int| {
                    let r = unsafe { <#ty>::__getbuffer__(::pyo3::PyRef::of(this)?, view, flags) };
                    r.map_err(::pyo3::PyErr::from)
                })
            };
            continue;
        }
        if id == "__releasebuffer__" {
            releasebuffer = quote! {
                Some(|this: &::pyo3::Obj, view: *mut ::pyo3::ffi::Py_buffer| {
                    if let Ok(s) = this.instance_ref::<#ty>() {
                        unsafe { <#ty>::__releasebuffer__(s, view) }
                    }
                })
            };
            continue;
        }
        let mut args: Vec<T2> = vec![];
        let mut gets: Vec<T2> = vec![];
        let mut names: Vec<String> = vec![];
        let mut npos = 0usize;
        let mut skip_cls = class;
        for (k, p) in f.sig.inputs.iter().enumerate() {
            match p {
                FnArg::Receiver(r) if r.mutability.is_some() => args.push(quote!(this.instance_mut::<#ty>()?)),
                FnArg::Receiver(_) => args.push(quote!(this.instance_ref::<#ty>()?)),
                FnArg::Typed(p) => {
                    let t = &*p.ty;
                    let inner = if let Type::Reference(r) = t { &*r.elem } else { t };
                    if skip_cls {
                        skip_cls = false;
                        args.push(quote!(&::pyo3::Bound::of(this.clone())));
                        continue;
                    }
                    match last(inner).as_str() {
                        "Python" => {
                            args.push(quote!(::pyo3::rt::token()));
                            continue;
                        }
                        "PyRef" if k == 0 => {
                            args.push(quote!(::pyo3::PyRef::of(this)?));
                            continue;
                        }
                        _ => {}
                    }
                    let n = match &*p.pat {
                        Pat::Ident(i) => i.ident.to_string().trim_start_matches('_').to_string(),
                        _ => format!("arg{k}"),
                    };
                    let (kw, default) = match &sig {
                        Some(s) => s.params.iter().find(|x| x.0 == n).map(|x| (x.1, x.2.clone())).unwrap_or((false, None)),
                        None => (false, None),
                    };
                    let pos = if kw { quote!(None) } else { quote!(Some(#npos)) };
                    if !kw {
                        npos += 1;
                    }
                    let (o, v) = (format_ident!("__o{}", k), format_ident!("__v{}", k));
                    gets.push(quote!(let #o = args.get(#pos, #n);));
                    names.push(n.clone());
                    let from = if let Some(c) = option_ref(t) {
                        quote!(if o.is_none() { None } else { Some(o.instance_ref::<#c>()?) })
                    } else if matches!(t, Type::Reference(_)) && last(inner) != "str" && !matches!(inner, Type::Slice(_)) {
                        quote!(o.instance_ref::<#inner>()?)
                    } else {
                        quote!(::pyo3::rt::extract(o)?)
                    };
                    let none = match default {
                        Some(d) => quote!(#d),
                        None => quote!(return Err(::pyo3::rt::missing(#n))),
                    };
                    gets.push(quote!(let #v = match &#o { Some(o) => #from, None => #none };));
                    args.push(quote!(#v));
                }
            }
        }
        let call = quote!(<#ty>::#id(#(#args),*));
        let fallible = match &f.sig.output {
            ReturnType::Type(_, t) => last(t).ends_with("Result"),
            ReturnType::Default => false,
        };
        let value = if fallible {
            quote!(match #call { Ok(v) => v, Err(e) => return Err(::pyo3::PyErr::from(e)) })
        } else {
            call
        };
        let how = if getter {
            quote!(Getter)
        } else if new {
            quote!(New)
        } else if class || stat {
            quote!(Class)
        } else {
            quote!(Method)
        };
        methods.push(quote! {
            ::pyo3::rt::Method {
                name: #name,
                kind: ::pyo3::rt::How::#how,
                call: |this: &::pyo3::Obj, args: &::pyo3::rt::Args| {
                    #(#gets)*
                    args.check(#npos, &[#(#names),*])?;
                    ::pyo3::rt::into_obj(#value, ::pyo3::rt::token())
                },
            }
        });
    }
    quote! {
        #imp
        impl ::pyo3::rt::PyMethods for #ty {
            fn methods() -> Vec<::pyo3::rt::Method> {
                vec![#(#methods),*]
            }
            fn getbuffer() -> Option<::pyo3::rt::GetBuffer> {
                #getbuffer
            }
            fn releasebuffer() -> Option<::pyo3::rt::ReleaseBuffer> {
                #releasebuffer
            }
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn pyfunction(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}

#[proc_macro_attribute]
pub fn pymodule(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse_macro_input!(item as ItemFn);
    let id = &f.sig.ident;
    let args: Vec<T2> = f
        .sig
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Typed(p) if last(&p.ty) == "Python" => quote!(::pyo3::rt::token()),
            _ => quote!(m),
        })
        .collect();
    quote! {
        #f
        /// Initialise the module.
        pub fn module_init(m: &::pyo3::Bound<'static, ::pyo3::types::PyModule>) -> ::pyo3::PyResult<()> {
            #id(#(#args),*)
        }
    }
    .into()
}

#[proc_macro_derive(FromPyObject, attributes(pyo3))]
pub fn derive_from(item: TokenStream) -> TokenStream {
    let d = parse_macro_input!(item as DeriveInput);
    let id = &d.ident;
    let tries: Vec<T2> = match &d.data {
        Data::Enum(e) => e
            .variants
            .iter()
            .map(|v| {
                let v = &v.ident;
                quote!(if let Ok(v) = obj.extract() { return Ok(#id::#v(v)); })
            })
            .collect(),
        _ => vec![quote!(if let Ok(v) = obj.extract() { return Ok(#id(v)); })],
    };
    quote! {
        impl<'a, 'py> ::pyo3::FromPyObject<'a, 'py> for #id {
            type Error = ::pyo3::PyErr;
            fn extract(obj: ::pyo3::Borrowed<'a, 'py, ::pyo3::PyAny>) -> Result<Self, Self::Error> {
                #(#tries)*
                Err(::pyo3::exceptions::PyTypeError::new_err(concat!("failed to extract ", stringify!(#id))))
            }
        }
    }
    .into()
}

#[proc_macro_derive(IntoPyObject, attributes(pyo3))]
pub fn derive_into(item: TokenStream) -> TokenStream {
    let d = parse_macro_input!(item as DeriveInput);
    let id = &d.ident;
    let arms: Vec<T2> = match &d.data {
        Data::Enum(e) => e
            .variants
            .iter()
            .map(|v| {
                let v = &v.ident;
                quote!(#id::#v(v) => ::pyo3::rt::into_obj(v, py)?,)
            })
            .collect(),
        _ => vec![quote!(#id(v) => ::pyo3::rt::into_obj(v, py)?,)],
    };
    quote! {
        impl<'py> ::pyo3::IntoPyObject<'py> for #id {
            type Target = ::pyo3::PyAny;
            type Output = ::pyo3::Bound<'py, ::pyo3::PyAny>;
            type Error = ::pyo3::PyErr;
            fn into_pyobject(self, py: ::pyo3::Python<'py>) -> Result<Self::Output, Self::Error> {
                Ok(::pyo3::Bound::of(match self { #(#arms)* }))
            }
        }
    }
    .into()
}
