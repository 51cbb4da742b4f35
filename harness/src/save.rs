//! Saving and loading a tile map: C27.
use crate::harnesses;
use crate::sym::*;
use auburn::col2d::*;
use lk_math::vector::V2i32;
use serde::de::{self, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};
use serde::Deserialize;

// A data format of our own, as little as serde allows: a list of tokens.
#[derive(Clone, Copy)]
enum Tok {
    Int(i64),
    Name(&'static str),
    Open,
    Close,
}
#[derive(Debug)]
struct Bad;
impl std::fmt::Display for Bad {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Bad
    }
}
impl de::Error for Bad {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Bad
    }
}
struct Out(Vec<Tok>);
macro_rules! ints {
    ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Result<(), Bad> { self.0.push(Tok::Int(v as i64)); Ok(()) } )* };
}
macro_rules! no {
    ($($f:ident($($t:ty),*)),*) => { $( fn $f(self, $(_: $t),*) -> Result<(), Bad> { Err(Bad) } )* };
}
impl Out {
    fn open(&mut self) -> Result<&mut Self, Bad> {
        self.0.push(Tok::Open);
        Ok(self)
    }
    fn close(&mut self) -> Result<(), Bad> {
        self.0.push(Tok::Close);
        Ok(())
    }
}
impl<'a> ser::Serializer for &'a mut Out {
    type Ok = ();
    type Error = Bad;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = ser::Impossible<(), Bad>;
    type SerializeMap = ser::Impossible<(), Bad>;
    type SerializeStruct = Self;
    type SerializeStructVariant = ser::Impossible<(), Bad>;
    ints! { serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64 }
    no! { serialize_bool(bool), serialize_f32(f32), serialize_f64(f64), serialize_char(char), serialize_str(&str), serialize_bytes(&[u8]),
    serialize_none(), serialize_unit(), serialize_unit_struct(&'static str), serialize_unit_variant(&'static str, u32, &'static str) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Bad> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, Bad> {
        self.open()
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, Bad> {
        self.open()
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Bad> {
        self.open()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> {
        Err(Bad)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Bad> {
        Err(Bad)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Bad> {
        self.open()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bad> {
        Err(Bad)
    }
}
impl<'a> ser::SerializeSeq for &'a mut Out {
    type Ok = ();
    type Error = Bad;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Bad> {
        self.close()
    }
}
impl<'a> ser::SerializeTuple for &'a mut Out {
    type Ok = ();
    type Error = Bad;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Bad> {
        self.close()
    }
}
impl<'a> ser::SerializeTupleStruct for &'a mut Out {
    type Ok = ();
    type Error = Bad;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Bad> {
        self.close()
    }
}
impl<'a> ser::SerializeStruct for &'a mut Out {
    type Ok = ();
    type Error = Bad;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Bad> {
        self.0.push(Tok::Name(k));
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Bad> {
        self.close()
    }
}

struct Src<'a>(&'a [Tok], usize);
impl<'a> Src<'a> {
    fn next(&mut self) -> Result<Tok, Bad> {
        let t = self.0.get(self.1).copied();
        self.1 += 1;
        t.ok_or(Bad)
    }
    fn closed(&mut self) -> bool {
        if let Some(Tok::Close) = self.0.get(self.1) {
            self.1 += 1;
            return true;
        }
        false
    }
}
struct Items<'b, 'a>(&'b mut Src<'a>, bool);
impl<'de, 'b, 'a> de::SeqAccess<'de> for Items<'b, 'a> {
    type Error = Bad;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Bad> {
        if self.1 || self.0.closed() {
            self.1 = true;
            return Ok(None);
        }
        s.deserialize(&mut *self.0).map(Some)
    }
}
impl<'de, 'b, 'a> de::MapAccess<'de> for Items<'b, 'a> {
    type Error = Bad;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Bad> {
        if self.1 || self.0.closed() {
            self.1 = true;
            return Ok(None);
        }
        s.deserialize(&mut *self.0).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Bad> {
        s.deserialize(&mut *self.0)
    }
}
impl<'de, 'b, 'a> de::Deserializer<'de> for &'b mut Src<'a> {
    type Error = Bad;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.next()? {
            Tok::Int(i) => {
                if i < 0 {
                    v.visit_i64(i)
                } else {
                    v.visit_u64(i as u64)
                }
            }
            Tok::Name(s) => v.visit_str(s),
            Tok::Open => {
                // a struct starts with a field name
                if let Some(Tok::Name(_)) = self.0.get(self.1) {
                    let mut i = Items(self, false);
                    v.visit_map(&mut i)
                } else {
                    let mut i = Items(self, false);
                    let r = v.visit_seq(&mut i)?;
                    if !i.1 && !i.0.closed() {
                        return Err(Bad);
                    }
                    Ok(r)
                }
            }
            Tok::Close => Err(Bad),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

type Pos = (i64, i64);
fn at(p: Pos) -> V2i32 {
    V2i32::from_xy(p.0 as i32, p.1 as i32)
}
fn tile() -> u8 {
    int(0, 255) as u8
}
fn through_tokens(m: &Tilemap) -> Tilemap {
    let mut o = Out(vec![]);
    check(m.serialize(&mut o).is_ok(), 100);
    let mut s = Src(&o.0, 0);
    match Tilemap::deserialize(&mut s) {
        Ok(l) => {
            check(s.1 == o.0.len(), 102);
            l
        }
        Err(_) => {
            check(false, 101);
            Tilemap::default()
        }
    }
}
#[cfg(feature = "native")]
mod place {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    /// a scratch directory of its own, removed afterwards
    pub struct Place(std::path::PathBuf);
    impl Place {
        pub fn new() -> Place {
            let d = std::env::temp_dir().join(format!("vh_save_{}_{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
            std::fs::create_dir_all(&d).unwrap();
            Place(d)
        }
        pub fn file(&self) -> &'static str {
            Box::leak(self.0.join("map").to_str().unwrap().to_string().into_boxed_str())
        }
        pub fn full(&self) -> &'static str {
            // a link, so that whatever the code does to its path stays here
            let f = self.0.join("full");
            std::os::unix::fs::symlink("/dev/full", &f).unwrap();
            Box::leak(f.to_str().unwrap().to_string().into_boxed_str())
        }
    }
    impl Drop for Place {
        fn drop(&mut self) {
            for e in std::fs::read_dir(&self.0).unwrap().flatten() {
                let _ = std::fs::remove_file(e.path());
            }
            let _ = std::fs::remove_dir(&self.0);
        }
    }
}
#[cfg(not(feature = "native"))]
mod place {
    pub struct Place;
    impl Place {
        pub fn new() -> Place {
            Place
        }
        pub fn file(&self) -> &'static str {
            "map"
        }
        pub fn full(&self) -> &'static str {
            "/dev/full"
        }
    }
}
use place::Place;
fn through(m: &Tilemap, p: &Place) -> Tilemap {
    let f = p.file();
    check(m.save(f).is_ok(), 110);
    match Tilemap::load(f) {
        Ok(l) => l,
        Err(_) => {
            check(false, 111);
            Tilemap::default()
        }
    }
}
fn window(k: i64) -> Pos {
    match k {
        0 => {
            let x = int(-1, 0);
            (x, int(15, 16))
        }
        1 => (16 * int(-(1 << 26), 1 << 26) + 15, 3),
        _ => (16 * int(-(1 << 27), (1 << 27) - 1), 16 * int(-(1 << 27), (1 << 27) - 1) + 15),
    }
}
/// `n` tiles set or removed anywhere in the window; every position of the
/// window reads the same after the round trip.
fn tokens(n: usize, k: i64) {
    let mut m = Tilemap::default();
    for _ in 0..n {
        let p = window(k);
        if n > 1 && choose(4) == 0 {
            m.remove_tile(at(p));
        } else {
            m.set_tile(at(p), tile());
        }
    }
    let l = through_tokens(&m);
    let q = window(k);
    same(&m, &l, q);
}
fn same(m: &Tilemap, l: &Tilemap, q: Pos) {
    check(l.get_tile(at(q)) == m.get_tile(at(q)), 1);
    let c = m.tile_to_chunk_pos(&at(q));
    check(l.get_chunk(&c).is_some() == m.get_chunk(&c).is_some(), 2);
}
const FAR: i64 = 1 << 31;
const SPOTS: [Pos; 8] = [(0, 0), (-1, -1), (3, 2), (16, -17), (-16, 47), (FAR - 1, -FAR), (-FAR, FAR - 1), (123456789, -98765432)];
/// Maps of several chunks with one tile of every value at one of the spots.
fn filed(n: usize, few: bool, twice: bool) {
    let p = Place::new();
    let mut m = Tilemap::default();
    if twice {
        // a longer file is there already
        for (i, q) in SPOTS.iter().enumerate() {
            m.set_tile(at(*q), 200 + i as u8);
        }
        check(m.save(p.file()).is_ok(), 112);
        m = Tilemap::default();
    }
    let k = choose(8) as usize;
    for i in 0..n {
        m.set_tile(at(SPOTS[(k + 3 * i + 1) % 8]), 9 + 31 * i as u8);
    }
    m.set_tile(at(SPOTS[k]), if few { int(8, 11) as u8 } else { tile() });
    let l = through(&m, &p);
    for q in SPOTS {
        same(&m, &l, q);
    }
}
harnesses! {
    fn c27_tokens_1() { tokens(1, 0) }
    fn c27_tokens_2() { tokens(2, 0) }
    fn c27_tokens_3() { tokens(3, 0) }
    fn c27_tokens_far_1() { tokens(1, 1) }
    fn c27_tokens_far_2() { tokens(2, 1) }
    fn c27_tokens_any_1() { tokens(1, 2) }
    fn c27_tokens_any_2() { tokens(2, 2) }
    /// every cell of a chunk is kept, whichever one is set
    fn c27_tokens_cells() {
        let mut m = Tilemap::default();
        let (x, y) = (int(-16, -1), int(16, 31));
        m.set_tile(at((-3, 18)), tile());
        m.set_tile(at((x, y)), tile());
        let l = through_tokens(&m);
        same(&m, &l, (x, y));
        same(&m, &l, (-3, 18));
    }
    /// many chunks
    fn c27_tokens_many() {
        let mut m = Tilemap::default();
        let n = choose(12) + 1;
        for i in 0..12 {
            if i < n {
                m.set_tile(at((16 * i, -16 * i)), int(1, 255) as u8);
            }
        }
        let l = through_tokens(&m);
        for i in 0..12 {
            same(&m, &l, (16 * i, -16 * i));
        }
    }
    fn c27_file_one() { filed(0, false, false) }
    fn c27_file_three() { filed(2, true, false) }
    fn c27_file_eight() { filed(7, true, false) }
    fn c27_file_over() { filed(1, true, true) }
    fn c27_file_empty() {
        let p = Place::new();
        let mut m = Tilemap::default();
        if choose(2) == 0 {
            m.set_tile(at((5, 5)), 7);
            m.remove_tile(at((5, 5)));
        }
        let l = through(&m, &p);
        for q in SPOTS {
            same(&m, &l, q);
        }
        same(&m, &l, (5, 5));
    }
    /// what cannot be written is not reported as saved
    fn c27_file_full() {
        let p = Place::new();
        let mut m = Tilemap::default();
        let n = choose(4);
        for i in 0..n {
            m.set_tile(at(SPOTS[i as usize]), 255);
        }
        check(m.save(p.full()).is_err(), 1);
    }
    /// more than the writer's and the reader's buffers hold
    fn c27_file_large() {
        let p = Place::new();
        let mut m = Tilemap::default();
        for i in 0..17 {
            m.set_tile(at((16 * i - 200, 5 - 32 * i)), (i + 1) as u8);
        }
        m.set_tile(at((-199, 5)), int(98, 101) as u8);
        if choose(2) == 0 {
            check(m.save(p.full()).is_err(), 3);
        }
        let l = through(&m, &p);
        for i in 0..17 {
            same(&m, &l, (16 * i - 200, 5 - 32 * i));
        }
        same(&m, &l, (-199, 5));
    }
    fn c27_file_missing() {
        let p = Place::new();
        check(Tilemap::load(p.file()).is_err(), 1);
        let m = Tilemap::default();
        check(m.save(p.file()).is_ok(), 2);
        check(Tilemap::load(p.file()).is_ok(), 3);
    }
}
