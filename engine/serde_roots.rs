
// Appended to a scratch copy of the crate: names the instantiations to extract. Never run.
#[cfg(feature = "serde")]
#[doc(hidden)]
pub mod verif_serde {
    use ::serde::de;
    pub struct Fault;
    impl std::fmt::Debug for Fault { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
    impl std::fmt::Display for Fault { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
    impl std::error::Error for Fault {}
    impl de::Error for Fault { fn custom<T: std::fmt::Display>(_: T) -> Self { Fault } }
    pub struct Input;
    impl<'de> de::MapAccess<'de> for Input {
        type Error = Fault;
        fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, _: K) -> Result<Option<K::Value>, Fault> { loop {} }
        fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, _: V) -> Result<V::Value, Fault> { loop {} }
    }
    pub struct Format;
    impl<'de> de::Deserializer<'de> for Format {
        type Error = Fault;
        fn deserialize_map<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Fault> { v.visit_map(Input) }
        fn deserialize_any<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Fault> { loop {} }
        ::serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct struct enum identifier ignored_any }
    }
    pub fn avl<'de, K: Clone + Ord + de::Deserialize<'de>, V: Clone + de::Deserialize<'de>>() -> Result<crate::AvlMap<K, V>, Fault> { de::Deserialize::deserialize(Format) }
    pub fn btree<'de, K: Clone + Ord + de::Deserialize<'de>, V: Clone + de::Deserialize<'de>, const N: usize>() -> Result<crate::btree::BTreeMap<K, V, N>, Fault> { de::Deserialize::deserialize(Format) }
}
