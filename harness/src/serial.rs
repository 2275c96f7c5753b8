//! serialisation into an in-memory token list and back
use crate::gen::*;
use crate::rt::*;
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use serde::Deserialize;

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    U(u64),
    /// length of a sequence, tuple, map or struct
    N(usize),
    /// name of a field
    F(&'static str),
    /// variant of an enum
    V(u32),
}

#[derive(Debug)]
struct E;
impl std::fmt::Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        E
    }
}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        E
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        E
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        E
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        E
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
        E
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        E
    }
    fn missing_field(_: &'static str) -> Self {
        E
    }
    fn duplicate_field(_: &'static str) -> Self {
        E
    }
}

struct Ser {
    out: Vec<Tok>,
    names: bool,
}
type R = Result<(), E>;
macro_rules! no {
    ($($f:ident($t:ty))*) => { $(fn $f(self, _: $t) -> R { Err(E) })* };
}
macro_rules! uint {
    ($($f:ident($t:ty))*) => { $(fn $f(self, v: $t) -> R { self.out.push(Tok::U(v as u64)); Ok(()) })* };
}
impl<'a> ser::Serializer for &'a mut Ser {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    uint! { serialize_bool(bool) serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64) }
    no! { serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_str(&str) serialize_bytes(&[u8]) }
    fn serialize_none(self) -> R {
        self.out.push(Tok::U(0));
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R {
        self.out.push(Tok::U(1));
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> R {
        self.out.push(Tok::V(i));
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> R {
        self.out.push(Tok::V(i));
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, E> {
        self.out.push(Tok::N(n.ok_or(E)?));
        Ok(self)
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, E> {
        self.out.push(Tok::N(n));
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, E> {
        self.out.push(Tok::N(n));
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, n: usize) -> Result<Self, E> {
        self.out.push(Tok::V(i));
        self.out.push(Tok::N(n));
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, E> {
        self.out.push(Tok::N(n.ok_or(E)?));
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, E> {
        self.out.push(Tok::N(n));
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, n: usize) -> Result<Self, E> {
        self.out.push(Tok::V(i));
        self.out.push(Tok::N(n));
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        self.names
    }
}
macro_rules! seqlike {
    ($($t:ident $f:ident)*) => { $(impl<'a> ser::$t for &'a mut Ser {
        type Ok = ();
        type Error = E;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> R { v.serialize(&mut **self) }
        fn end(self) -> R { Ok(()) }
    })* };
}
seqlike! { SerializeSeq serialize_element SerializeTuple serialize_element SerializeTupleStruct serialize_field SerializeTupleVariant serialize_field }
macro_rules! structlike {
    ($($t:ident)*) => { $(impl<'a> ser::$t for &'a mut Ser {
        type Ok = ();
        type Error = E;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, name: &'static str, v: &T) -> R {
            if self.names {
                self.out.push(Tok::F(name));
            }
            v.serialize(&mut **self)
        }
        fn end(self) -> R { Ok(()) }
    })* };
}
structlike! { SerializeStruct SerializeStructVariant }
impl<'a> ser::SerializeMap for &'a mut Ser {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        v.serialize(&mut **self)
    }
    fn end(self) -> R {
        Ok(())
    }
}

struct De<'t> {
    toks: &'t [Tok],
    at: usize,
    names: bool,
}
impl<'t> De<'t> {
    fn next(&mut self) -> Result<&'t Tok, E> {
        let t = self.toks.get(self.at).ok_or(E)?;
        self.at += 1;
        Ok(t)
    }
    fn num(&mut self) -> Result<u64, E> {
        match self.next()? {
            Tok::U(x) => Ok(*x),
            _ => Err(E),
        }
    }
    fn len(&mut self) -> Result<usize, E> {
        match self.next()? {
            Tok::N(n) => Ok(*n),
            _ => Err(E),
        }
    }
}
macro_rules! de_uint {
    ($($f:ident $v:ident $t:ty)*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.$v(self.num()? as $t) })* };
}
macro_rules! de_no {
    ($($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E) })* };
}
impl<'de, 't> de::Deserializer<'de> for &mut De<'t> {
    type Error = E;
    de_uint! { deserialize_u8 visit_u8 u8 deserialize_u16 visit_u16 u16 deserialize_u32 visit_u32 u32 deserialize_u64 visit_u64 u64 }
    de_no! { deserialize_any deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_ignored_any }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_bool(self.num()? != 0)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.num()? == 0 {
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.len()?;
        v.visit_seq(Items { de: self, n })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        if self.len()? != n {
            return Err(E);
        }
        v.visit_seq(Items { de: self, n })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> {
        self.deserialize_tuple(n, v)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.len()?;
        v.visit_map(Items { de: self, n })
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        let n = self.len()?;
        if self.names {
            v.visit_map(Items { de: self, n })
        } else if n == f.len() {
            v.visit_seq(Items { de: self, n })
        } else {
            Err(E)
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_enum(self)
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.next()? {
            Tok::F(s) => v.visit_str(s),
            _ => Err(E),
        }
    }
    fn is_human_readable(&self) -> bool {
        self.names
    }
}
struct Items<'d, 't> {
    de: &'d mut De<'t>,
    n: usize,
}
impl<'de, 'd, 't> SeqAccess<'de> for Items<'d, 't> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.n == 0 {
            return Ok(None);
        }
        self.n -= 1;
        seed.deserialize(&mut *self.de).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.n)
    }
}
impl<'de, 'd, 't> MapAccess<'de> for Items<'d, 't> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.n == 0 {
            return Ok(None);
        }
        self.n -= 1;
        seed.deserialize(&mut *self.de).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, E> {
        seed.deserialize(&mut *self.de)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.n)
    }
}
impl<'de, 't> EnumAccess<'de> for &mut De<'t> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, Self), E> {
        let Tok::V(i) = *self.next()? else { return Err(E) };
        let v = seed.deserialize(IntoDeserializer::<E>::into_deserializer(i))?;
        Ok((v, self))
    }
}
impl<'de, 't> VariantAccess<'de> for &mut De<'t> {
    type Error = E;
    fn unit_variant(self) -> R {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, E> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        de::Deserializer::deserialize_tuple(self, n, v)
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        de::Deserializer::deserialize_struct(self, "", f, v)
    }
}

#[inline(always)]
fn through<T: Serialize + for<'de> Deserialize<'de>>(v: &T, names: bool, id: u32) -> T {
    let mut s = Ser { out: Vec::with_capacity(64), names };
    let ok = v.serialize(&mut s).is_ok();
    check(ok, id);
    let mut d = De { toks: &s.out, at: 0, names };
    let r = T::deserialize(&mut d);
    check(r.is_ok(), id + 1);
    check(d.at == s.out.len(), id + 2);
    match r {
        Ok(r) => r,
        Err(_) => unreachable!(),
    }
}

/// param: words, field names (0, 1)
#[no_mangle]
pub extern "C" fn h_serde_value() {
    let (k, names) = (param(0) as usize, param(1) == 1);
    let width = any_width(k);
    let a = any_words(width, k);
    let v = owned(&a, width);
    let r = through(&v, names, 1);
    expect(&r, &a, width, k, 4);
    check(r == v, 6);
    cover(1);
}

/// param: index width, data width, stores, kind (0 dense, 1 sparse, 2 sparse type), field names
#[no_mangle]
pub extern "C" fn h_serde_array() {
    let (iw, dw, n, kind, names) = (param(0) as u32, param(1) as u32, param(2), param(3), param(4) == 1);
    let (ki, kd) = (nwords(iw).max(1), nwords(dw));
    let word = |w: u32, k: usize| {
        if w == 0 {
            [0u64; MAXW]
        } else {
            any_words(w, k)
        }
    };
    let d = word(dw, kd);
    let (mut at, mut val) = ([[0u64; MAXW]; 3], [[0u64; MAXW]; 3]);
    let mut i = 0;
    while i < n as usize {
        at[i] = word(iw, ki);
        val[i] = word(dw, kd);
        split_bool(same(&val[i], &d, kd));
        let mut j = 0;
        while j < i {
            split_bool(same(&at[i], &at[j], ki));
            j += 1;
        }
        i += 1;
    }
    let j = word(iw, ki);
    let fill = |a: &mut dyn FnMut(&[u64], &[u64])| {
        let mut i = 0;
        while i < n as usize {
            a(&at[i], &val[i]);
            i += 1;
        }
    };
    let x = word(dw, kd);
    if kind < 2 {
        let mut a = if kind == 0 { ArrayValue::new_dense(iw, view(&d, dw)) } else { ArrayValue::new_sparse(iw, view(&d, dw)) };
        fill(&mut |p, v| a.store(view(p, iw), view(v, dw)));
        let mut r = through(&a, names, 1);
        check(r.is_dense() == (kind == 0) && r.index_width() == iw && r.data_width() == dw, 4);
        check(r.select(view(&j, iw)) == a.select(view(&j, iw)), 5);
        check(r.is_equal(&a) == Some(true), 6);
        // and behaves the same afterwards
        a.store(view(&j, iw), view(&x, dw));
        r.store(view(&j, iw), view(&x, dw));
        let q = word(iw, ki);
        check(r.select(view(&q, iw)) == a.select(view(&q, iw)), 7);
    } else {
        let mut a = SparseArrayValue::new(iw, view(&d, dw));
        fill(&mut |p, v| a.store(view(p, iw), view(v, dw)));
        let mut r = through(&a, names, 1);
        check(r.index_width() == iw && r.data_width() == dw, 4);
        check(r.select(view(&j, iw)) == a.select(view(&j, iw)), 5);
        check(r.default() == a.default(), 6);
        a.store(view(&j, iw), view(&x, dw));
        r.store(view(&j, iw), view(&x, dw));
        let q = word(iw, ki);
        check(r.select(view(&q, iw)) == a.select(view(&q, iw)), 7);
    }
    cover(1);
}

/// values and arrays with given, large widths
/// params: index width, data width, kind (0: dense, 1: sparse, 2: sparse type, 3: a value), entries, names
#[no_mangle]
pub extern "C" fn h_serde_wide() {
    use crate::history::{place, value};
    use crate::wide::{eq_words, wide};
    let (iw, dw, kind, n, names) = (param(0) as u32, param(1) as u32, param(2), param(3), param(4) == 1);
    if kind == 3 {
        let a = wide(dw, 2, 15);
        let r = through(&owned(&a, dw), names, 1);
        eq_words(&r, &a, dw, 4);
        cover(1);
        return;
    }
    let d = value(dw, 0, true);
    let mut vals = Vec::new();
    let mut i = 0;
    while i < n + 1 {
        vals.push(value(dw, i + 1, false));
        i += 1;
    }
    let elem = |i: u64, last: bool| if i < n { &vals[i as usize] } else if last { &vals[n as usize] } else { &d };
    if kind < 2 {
        let mut a = if kind == 0 { ArrayValue::new_dense(iw, view(&d, dw)) } else { ArrayValue::new_sparse(iw, view(&d, dw)) };
        let mut i = 0;
        while i < n {
            a.store(view(&place(iw, i), iw), view(&vals[i as usize], dw));
            i += 1;
        }
        let mut r = through(&a, names, 1);
        check(r.is_dense() == (kind == 0) && r.index_width() == iw && r.data_width() == dw, 5);
        check(r == a && r.is_equal(&a) == Some(true), 6);
        r.store(view(&place(iw, n), iw), view(&vals[n as usize], dw));
        i = 0;
        while i <= n + 1 {
            eq_words(&r.select(view(&place(iw, i), iw)), elem(i, i == n), dw, 7);
            i += 1;
        }
    } else {
        let mut a = SparseArrayValue::new(iw, view(&d, dw));
        let mut i = 0;
        while i < n {
            a.store(view(&place(iw, i), iw), view(&vals[i as usize], dw));
            i += 1;
        }
        let mut r = through(&a, names, 1);
        check(r.index_width() == iw && r.data_width() == dw, 8);
        eq_words(&r.default(), &d, dw, 9);
        r.store(view(&place(iw, n), iw), view(&vals[n as usize], dw));
        i = 0;
        while i <= n + 1 {
            eq_words(&r.select(view(&place(iw, i), iw)), elem(i, i == n), dw, 10);
            i += 1;
        }
    }
    cover(1);
}
