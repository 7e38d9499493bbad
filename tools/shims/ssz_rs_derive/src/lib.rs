//! Stand-in derives for offline demonstrations.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

fn parts(d: &DeriveInput) -> (proc_macro2::TokenStream, proc_macro2::TokenStream) {
    let n = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let (mut ser, mut htr) = (quote!(), quote!());
    match &d.data {
        Data::Struct(s) => {
            let (names, tys): (Vec<_>, Vec<_>) = s
                .fields
                .iter()
                .enumerate()
                .map(|(i, f)| {
                    let m = match &f.ident {
                        Some(i) => quote!(#i),
                        None => {
                            let k = syn::Index::from(i);
                            quote!(#k)
                        }
                    };
                    (m, f.ty.clone())
                })
                .unzip();
            let newtype = matches!(s.fields, Fields::Unnamed(_)) && names.len() == 1;
            if newtype {
                let t = &tys[0];
                ser = quote! {
                    impl #ig ssz_rs::SszSized for #n #tg #wc {
                        fn is_variable_size() -> bool { <#t as ssz_rs::SszSized>::is_variable_size() }
                        fn size_hint() -> usize { <#t as ssz_rs::SszSized>::size_hint() }
                    }
                    impl #ig ssz_rs::Serialize for #n #tg #wc {
                        fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, ssz_rs::SerializeError> { ssz_rs::Serialize::serialize(&self.0, b) }
                    }
                    impl #ig ssz_rs::Deserialize for #n #tg #wc {
                        fn deserialize(e: &[u8]) -> Result<Self, ssz_rs::DeserializeError> { Ok(Self(<#t as ssz_rs::Deserialize>::deserialize(e)?)) }
                    }
                };
                htr = quote! {
                    impl #ig ssz_rs::HashTreeRoot for #n #tg #wc {
                        fn hash_tree_root(&self) -> Result<ssz_rs::Node, ssz_rs::MerkleizationError> { self.0.hash_tree_root() }
                        fn is_basic() -> bool { <#t as ssz_rs::HashTreeRoot>::is_basic() }
                    }
                };
            } else {
                let strs: Vec<String> = names.iter().map(|m| m.to_string()).collect();
                ser = quote! {
                    impl #ig ssz_rs::SszSized for #n #tg #wc {
                        fn is_variable_size() -> bool { false #(|| <#tys as ssz_rs::SszSized>::is_variable_size())* }
                        fn size_hint() -> usize { 0 #(+ <#tys as ssz_rs::SszSized>::size_hint())* }
                    }
                    impl #ig ssz_rs::Serialize for #n #tg #wc {
                        fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, ssz_rs::SerializeError> {
                            let mut w = ssz_rs::Writer::default();
                            #( w.put(&self.#names)?; )*
                            w.finish(b)
                        }
                    }
                    impl #ig ssz_rs::Deserialize for #n #tg #wc {
                        fn deserialize(e: &[u8]) -> Result<Self, ssz_rs::DeserializeError> {
                            let shape = [ #( (<#tys as ssz_rs::SszSized>::is_variable_size(), <#tys as ssz_rs::SszSized>::size_hint()) ),* ];
                            let parts = ssz_rs::split_fields(e, &shape)?;
                            let mut parts = parts.into_iter();
                            Ok(Self { #( #names: <#tys as ssz_rs::Deserialize>::deserialize(parts.next().unwrap())? ),* })
                        }
                    }
                };
                htr = quote! {
                    impl #ig ssz_rs::HashTreeRoot for #n #tg #wc {
                        fn hash_tree_root(&self) -> Result<ssz_rs::Node, ssz_rs::MerkleizationError> {
                            let leaves = vec![ #( self.#names.hash_tree_root()? ),* ];
                            let n = leaves.len();
                            Ok(ssz_rs::merkleize(leaves, n))
                        }
                        fn child_index(name: &str) -> Option<(usize, usize, fn(&[ssz_rs::PathElement]) -> Option<usize>)> {
                            let names: &[&str] = &[ #( #strs ),* ];
                            let f: &[fn(&[ssz_rs::PathElement]) -> Option<usize>] = &[ #( <#tys as ssz_rs::HashTreeRoot>::g_index ),* ];
                            let i = names.iter().position(|x| *x == name)?;
                            Some((i, names.len(), f[i]))
                        }
                    }
                };
            }
        }
        Data::Enum(e) => {
            let vs: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            let tys: Vec<_> = e.variants.iter().map(|v| v.fields.iter().next().map(|f| f.ty.clone()).expect("variant payload")).collect();
            ser = quote! {
                impl #ig ssz_rs::SszSized for #n #tg #wc {
                    fn is_variable_size() -> bool { true }
                    fn size_hint() -> usize { 4 }
                }
                impl #ig ssz_rs::Serialize for #n #tg #wc {
                    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, ssz_rs::SerializeError> {
                        match self { #( Self::#vs(x) => ssz_rs::Serialize::serialize(x, b) ),* }
                    }
                }
                impl #ig ssz_rs::Deserialize for #n #tg #wc {
                    fn deserialize(e: &[u8]) -> Result<Self, ssz_rs::DeserializeError> {
                        #( if let Ok(x) = <#tys as ssz_rs::Deserialize>::deserialize(e) { return Ok(Self::#vs(x)); } )*
                        Err(ssz_rs::DeserializeError)
                    }
                }
            };
            htr = quote! {
                impl #ig ssz_rs::HashTreeRoot for #n #tg #wc {
                    fn hash_tree_root(&self) -> Result<ssz_rs::Node, ssz_rs::MerkleizationError> {
                        match self { #( Self::#vs(x) => x.hash_tree_root() ),* }
                    }
                }
            };
        }
        _ => {}
    }
    (ser, htr)
}
#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn simple_serialize(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (a, b) = parts(&d);
    let n = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    quote!(#a #b impl #ig ssz_rs::SimpleSerialize for #n #tg #wc {}).into()
}
#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn serializable(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    parts(&d).0.into()
}
#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn hash_tree_root(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    parts(&d).1.into()
}
