/// Entry points for the harness in /verif; compiled with --cfg victor_verif only.
pub mod verif_pdf {
    use super::object::{Dictionary, Object};
    use super::syntax::{BasicObjects, IndirectObjectId, PdfFile};
    use std::any::Any;

    #[derive(Debug, Clone)]
    pub enum Desc {
        Usize(usize),
        I32(i32),
        Float(f32),
        Name(Vec<u8>),
        Literal(Vec<u8>),
        Hex(Vec<u8>),
        Array(Vec<Desc>),
        /// linked dictionaries, the first one written first
        Dict(Vec<Vec<(Vec<u8>, Desc)>>),
        Reference(u32),
        Alpha(f32),
        Owned(Vec<(Vec<u8>, Desc)>),
    }

    /// Owns what objects refer to.
    struct Arena(Vec<Box<dyn Any>>);
    impl Arena {
        fn keep<T: 'static>(&mut self, v: Vec<T>) -> &'static [T] {
            let b = Box::new(v);
            let p: *const [T] = &b[..];
            self.0.push(b);
            // The arena outlives the objects: they are only used below `with`.
            unsafe { &*p }
        }
        fn pairs(&mut self, v: &[(Vec<u8>, Desc)]) -> &'static [(&'static [u8], Object<'static>)] {
            let mut out = Vec::new();
            for (k, d) in v {
                let k = self.keep(k.clone());
                out.push((k, self.object(d)))
            }
            self.keep(out)
        }
        fn dict(&mut self, d: &[Vec<(Vec<u8>, Desc)>]) -> Dictionary<'static> {
            if d.is_empty() {
                return Dictionary { prev: None, pairs: &[] };
            }
            let prev = if d.len() > 1 {
                let p = self.dict(&d[..d.len() - 1]);
                Some(&self.keep(vec![p])[0])
            } else {
                None
            };
            Dictionary { prev, pairs: self.pairs(&d[d.len() - 1]) }
        }
        fn object(&mut self, d: &Desc) -> Object<'static> {
            match d {
                Desc::Usize(x) => Object::from(*x),
                Desc::I32(x) => Object::from(*x),
                Desc::Float(x) => Object::from(*x),
                Desc::Name(x) => Object::Name(self.keep(x.clone())),
                Desc::Literal(x) => Object::LiteralString(self.keep(x.clone())),
                Desc::Hex(x) => Object::HexString(self.keep(x.clone())),
                Desc::Array(x) => {
                    let v: Vec<_> = x.iter().map(|d| self.object(d)).collect();
                    Object::Array(self.keep(v))
                }
                Desc::Dict(x) => Object::Dictionary(self.dict(x)),
                Desc::Reference(x) => Object::Reference(IndirectObjectId(*x)),
                Desc::Alpha(x) => Object::GraphicsStateDictionaryAlpha(*x),
                Desc::Owned(x) => {
                    let v: Vec<_> = x.iter().map(|(k, d)| (k.clone(), self.object(d))).collect();
                    Object::DictionaryWithOwnedKeys(self.keep(v))
                }
            }
        }
    }

    pub fn write_object(d: &Desc) -> Vec<u8> {
        let mut a = Arena(Vec::new());
        let mut out = Vec::new();
        a.object(d).write(&mut out).unwrap();
        out
    }

    pub enum Item {
        Stream(Vec<Vec<(Vec<u8>, Desc)>>, Vec<u8>),
        Dict(Vec<Vec<(Vec<u8>, Desc)>>),
    }

    /// The numbers given to the items, and the file.
    pub fn write_file(items: &[Item], basic: [&[(Vec<u8>, Desc)]; 3]) -> (Vec<u32>, Vec<u8>) {
        let mut f = PdfFile::new();
        let mut ids = Vec::new();
        let mut a = Arena(Vec::new());
        for i in items {
            ids.push(match i {
                Item::Stream(d, bytes) => f.add_stream(a.dict(d), bytes.as_slice().into()).0,
                Item::Dict(d) => f.add_dictionary(a.dict(d)).0,
            })
        }
        let mut out = Vec::new();
        let b = BasicObjects {
            page_tree: Dictionary { prev: None, pairs: a.pairs(basic[0]) },
            catalog: Dictionary { prev: None, pairs: a.pairs(basic[1]) },
            info: Dictionary { prev: None, pairs: a.pairs(basic[2]) },
        };
        f.write(&mut out, &b).unwrap();
        (ids, out)
    }
}
