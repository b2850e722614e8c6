//! Signature-only stand-in for curvelogic/yaml-rust (not obtainable offline).
//! It exists so that src/import/yaml.rs, src/import/jsonl.rs and
//! src/export/yaml.rs can be type-checked and lowered to MIR for analysis.
//! Nothing here is ever run.
pub mod yaml {
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct Tag(pub String, pub String);
    pub type Array = Vec<Yaml>;
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct Hash(Vec<(Yaml, Yaml)>);
    impl std::iter::FromIterator<(Yaml, Yaml)> for Hash {
        fn from_iter<T: IntoIterator<Item = (Yaml, Yaml)>>(_: T) -> Self {
            unimplemented!()
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum Yaml {
        Real(Option<Tag>, String),
        Integer(Option<Tag>, i64),
        String(Option<Tag>, String),
        Boolean(Option<Tag>, bool),
        Array(Option<Tag>, Array),
        Hash(Option<Tag>, self::Hash),
        Alias(usize),
        Null(Option<Tag>),
        BadValue,
    }
}
pub use yaml::Yaml;
#[derive(Debug, Clone, Copy)]
pub enum EmitError {
    FmtError(std::fmt::Error),
    BadHashmapKey,
}
impl std::fmt::Display for EmitError {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for EmitError {}
pub struct YamlEmitter<'a>(&'a mut dyn std::fmt::Write);
impl<'a> YamlEmitter<'a> {
    pub fn new(w: &'a mut dyn std::fmt::Write) -> YamlEmitter<'a> {
        YamlEmitter(w)
    }
    pub fn dump(&mut self, _: &Yaml) -> Result<(), EmitError> {
        unimplemented!()
    }
}
pub mod scanner {
    #[derive(Clone, Copy, PartialEq, Debug, Eq)]
    pub enum TEncoding {
        Utf8,
    }
    #[derive(Clone, Copy, PartialEq, Debug, Eq)]
    pub enum TScalarStyle {
        Any,
        Plain,
        SingleQuoted,
        DoubleQuoted,
        Literal,
        Foled,
    }
    #[derive(Clone, Copy, PartialEq, Debug, Eq)]
    pub struct Marker {
        index: usize,
        line: usize,
        col: usize,
    }
    impl Marker {
        pub fn index(&self) -> usize {
            self.index
        }
        pub fn line(&self) -> usize {
            self.line
        }
        pub fn col(&self) -> usize {
            self.col
        }
    }
    #[derive(Clone, PartialEq, Debug, Eq)]
    pub struct ScanError {
        mark: Marker,
        info: String,
    }
    impl ScanError {
        pub fn marker(&self) -> &Marker {
            &self.mark
        }
    }
    impl std::fmt::Display for ScanError {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            unimplemented!()
        }
    }
    impl std::error::Error for ScanError {}
    #[derive(Clone, PartialEq, Debug, Eq)]
    pub enum TokenType {
        NoToken,
        StreamStart(TEncoding),
        StreamEnd,
        VersionDirective(u32, u32),
        TagDirective(String, String),
        DocumentStart,
        DocumentEnd,
        BlockSequenceStart,
        BlockMappingStart,
        BlockEnd,
        FlowSequenceStart,
        FlowSequenceEnd,
        FlowMappingStart,
        FlowMappingEnd,
        BlockEntry,
        FlowEntry,
        Key,
        Value,
        Alias(String),
        Anchor(String),
        Tag(String, String),
        Scalar(TScalarStyle, String),
    }
}
pub mod parser {
    use super::scanner::*;
    #[derive(Clone, PartialEq, Debug, Eq)]
    pub enum Event {
        Nothing,
        StreamStart,
        StreamEnd,
        DocumentStart,
        DocumentEnd,
        Alias(usize),
        Scalar(String, TScalarStyle, usize, Option<TokenType>),
        SequenceStart(usize),
        SequenceEnd,
        MappingStart(usize),
        MappingEnd,
    }
    pub trait MarkedEventReceiver {
        fn on_event(&mut self, ev: Event, mark: Marker);
    }
    pub struct Parser<T>(T);
    impl<T: Iterator<Item = char>> Parser<T> {
        pub fn new(src: T) -> Parser<T> {
            Parser(src)
        }
        pub fn load<R: MarkedEventReceiver>(&mut self, _: &mut R, _multi: bool) -> Result<(), ScanError> {
            unimplemented!()
        }
    }
}
