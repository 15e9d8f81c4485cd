//! Reading and building maze nodes through their public serialised form.
use puzzle_utils::MazeNode;
use serde::de::value::{Error, MapDeserializer};
use serde::ser::*;
use serde::{Deserialize, Serialize};

pub fn node(right: bool, down: bool) -> MazeNode {
    let d: MapDeserializer<_, Error> = MapDeserializer::new([("right", right), ("down", down)].into_iter());
    match MazeNode::deserialize(d) {
        Ok(n) => n,
        Err(_) => panic!("a maze node can be deserialised from its walls"),
    }
}

/// The walls (right, down) of a node
pub fn walls(n: &MazeNode) -> (bool, bool) {
    let mut t = Tape::default();
    let _ = n.serialize(&mut t);
    let mut w = (None, None);
    for i in 0..t.n {
        let (k, v) = t.fields[i];
        match k {
            "right" => w.0 = Some(v),
            "down" => w.1 = Some(v),
            _ => (),
        }
    }
    match w {
        (Some(a), Some(b)) => (a, b),
        _ => panic!("a maze node serialises its walls"),
    }
}

/// Records what is serialised
#[derive(Default)]
pub struct Tape {
    pub name: &'static str,
    pub variant: &'static str,
    pub index: u32,
    pub n: usize,
    pub fields: [(&'static str, bool); 8],
    pub last: Option<bool>,
    pub bad: bool,
}

#[derive(Debug)]
pub struct No;
impl std::fmt::Display for No {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for No {}
impl serde::ser::Error for No {
    fn custom<T: std::fmt::Display>(_: T) -> No {
        No
    }
}
macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self, $(_: $t),*) -> Result<(), No> { Err(No) })* };
}
impl<'a> Serializer for &'a mut Tape {
    type Ok = ();
    type Error = No;
    type SerializeSeq = Impossible<(), No>;
    type SerializeTuple = Impossible<(), No>;
    type SerializeTupleStruct = Impossible<(), No>;
    type SerializeTupleVariant = Impossible<(), No>;
    type SerializeMap = Impossible<(), No>;
    type SerializeStruct = &'a mut Tape;
    type SerializeStructVariant = Impossible<(), No>;
    fn serialize_bool(self, v: bool) -> Result<(), No> {
        self.last = Some(v);
        Ok(())
    }
    fn serialize_unit_variant(self, name: &'static str, index: u32, variant: &'static str) -> Result<(), No> {
        self.name = name;
        self.index = index;
        self.variant = variant;
        Ok(())
    }
    fn serialize_struct(self, name: &'static str, _: usize) -> Result<Self::SerializeStruct, No> {
        self.name = name;
        Ok(self)
    }
    no! {
        serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64);
        serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str);
        serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), No> {
        Err(No)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), No> {
        Err(No)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<(), No> {
        Err(No)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, No> {
        Err(No)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, No> {
        Err(No)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, No> {
        Err(No)
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeTupleVariant, No> {
        Err(No)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, No> {
        Err(No)
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeStructVariant, No> {
        Err(No)
    }
}
impl SerializeStruct for &mut Tape {
    type Ok = ();
    type Error = No;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), No> {
        v.serialize(&mut **self)?;
        match self.last.take() {
            Some(b) if self.n < 8 => {
                self.fields[self.n] = (k, b);
                self.n += 1;
            }
            _ => self.bad = true,
        }
        Ok(())
    }
    fn end(self) -> Result<(), No> {
        Ok(())
    }
}
