//! Lists what the code generated for each entry of libmgen's table defines and refers to.
use std::collections::BTreeSet;
use syn::visit::{self, Visit};

const BUILTIN: &[&str] = &[
    "bool", "f32", "f64", "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", "core", "std", "Self", "self", "allow", "inline", "doc", "Some", "None", "Ok", "Err",
];

#[derive(Default)]
struct Refs {
    used: BTreeSet<String>,
    local: BTreeSet<String>,
}
impl<'a> Visit<'a> for Refs {
    fn visit_path(&mut self, p: &'a syn::Path) {
        self.used.insert(p.segments[0].ident.to_string());
        visit::visit_path(self, p);
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.local.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_attribute(&mut self, _: &'a syn::Attribute) {}
    fn visit_type_param(&mut self, p: &'a syn::TypeParam) {
        self.local.insert(p.ident.to_string());
    }
    fn visit_item_const(&mut self, i: &'a syn::ItemConst) {
        self.local.insert(i.ident.to_string());
        visit::visit_item_const(self, i);
    }
    fn visit_item_fn(&mut self, i: &'a syn::ItemFn) {
        self.local.insert(i.sig.ident.to_string());
        visit::visit_item_fn(self, i);
    }
    fn visit_item_type(&mut self, i: &'a syn::ItemType) {
        self.local.insert(i.ident.to_string());
        visit::visit_item_type(self, i);
    }
}

pub fn run(out: &str) {
    let mut text = String::from("pub struct Facts { pub defs: &'static [&'static str], pub refs: &'static [&'static str], pub empty: bool }\n");
    for bits in [32usize, 64] {
        text += &format!("pub static FACTS{}: &[Facts] = &[\n", bits);
        for f in crate::functions::FUNCTIONS {
            let config = crate::Config::new(options(bits));
            let tokens = match f.gen {
                Some(gen) => gen(if bits == 32 { f.num_terms[0] } else { f.num_terms[1] }, &config),
                None => Default::default(),
            };
            let empty = tokens.is_empty();
            let file: syn::File = syn::parse2(tokens).expect("generated code is not a list of items");
            let (mut defs, mut refs) = (Vec::new(), BTreeSet::new());
            for i in &file.items {
                defs.push(match i {
                    syn::Item::Fn(i) => i.sig.ident.to_string(),
                    syn::Item::Const(i) => i.ident.to_string(),
                    syn::Item::Type(i) => i.ident.to_string(),
                    _ => panic!("unexpected item {:?}", i),
                });
                let mut r = Refs::default();
                r.visit_item(i);
                refs.extend(r.used.into_iter().filter(|u| !r.local.contains(u) && !BUILTIN.contains(&u.as_str())));
            }
            text += &format!("    Facts {{ defs: &{:?}, refs: &{:?}, empty: {} }}, // {}\n", defs, refs.into_iter().collect::<Vec<_>>(), empty, f.name);
        }
        text += "];\n";
    }
    if std::fs::read_to_string(out).ok().as_deref() != Some(&text) {
        std::fs::write(out, text).unwrap();
    }
}

fn options(bits: usize) -> crate::Opt {
    use structopt::StructOpt;
    crate::Opt::from_iter(["libmgen", "--num-bits", &bits.to_string(), "-f", "x"])
}
