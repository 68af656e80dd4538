//! Stand-in for the parts of polars the command line tool uses: reading CSV
//! (no quoting, no compression, no IPC) into string columns, and building,
//! sorting and writing a table of strings and counts.
pub mod error {
    #[derive(Debug)]
    pub enum PolarsError { IO(std::io::Error), Other(String) }
    impl std::fmt::Display for PolarsError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("polars error") }
    }
    impl std::error::Error for PolarsError {}
    impl From<std::io::Error> for PolarsError { fn from(e: std::io::Error) -> Self { Self::IO(e) } }
    pub type PolarsResult<T> = Result<T, PolarsError>;
}
pub mod prelude {
    pub use super::error::*;
    use std::io::{Read, Write};
    use std::path::PathBuf;
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct PlSmallStr(String);
    impl From<&str> for PlSmallStr { fn from(s: &str) -> Self { Self(s.into()) } }
    impl From<String> for PlSmallStr { fn from(s: String) -> Self { Self(s) } }
    #[derive(Clone, Debug)]
    pub enum Cells { Str(Vec<Option<String>>), U64(Vec<u64>) }
    impl From<Vec<String>> for Cells { fn from(v: Vec<String>) -> Self { Cells::Str(v.into_iter().map(Some).collect()) } }
    impl From<Vec<u64>> for Cells { fn from(v: Vec<u64>) -> Self { Cells::U64(v) } }
    #[derive(Clone, Debug)]
    pub struct Column { name: PlSmallStr, cells: Cells }
    pub struct ChunkedStr(Vec<Option<String>>);
    impl ChunkedStr { pub fn iter(&self) -> impl Iterator<Item = Option<&str>> { self.0.iter().map(|x| x.as_deref()) } }
    pub enum DataType { String }
    impl Column {
        pub fn new<T: Into<Cells>>(name: PlSmallStr, c: T) -> Self { Self { name, cells: c.into() } }
        pub fn cast(&self, _: &DataType) -> PolarsResult<Column> { Ok(self.clone()) }
        pub fn str(&self) -> PolarsResult<ChunkedStr> {
            match &self.cells { Cells::Str(v) => Ok(ChunkedStr(v.clone())), _ => Err(PolarsError::Other("str".into())) }
        }
        fn cell(&self, i: usize) -> String {
            match &self.cells { Cells::Str(v) => v[i].clone().unwrap_or_default(), Cells::U64(v) => v[i].to_string() }
        }
    }
    #[derive(Clone, Debug)]
    pub struct DataFrame { height: usize, cols: Vec<Column> }
    #[derive(Default)]
    pub struct SortMultipleOptions;
    impl DataFrame {
        pub fn new(height: usize, cols: Vec<Column>) -> PolarsResult<Self> {
            for i in 0..cols.len() {
                for j in 0..i {
                    if cols[i].name == cols[j].name { return Err(PolarsError::Other("duplicate".into())); }
                }
            }
            Ok(Self { height, cols })
        }
        pub fn column(&self, n: &str) -> PolarsResult<&Column> {
            self.cols.iter().find(|c| c.name.0 == n).ok_or_else(|| PolarsError::Other("column".into()))
        }
        pub fn rename(&mut self, a: &str, b: PlSmallStr) -> PolarsResult<&mut Self> {
            match self.cols.iter_mut().find(|c| c.name.0 == a) {
                Some(c) => c.name = b,
                None => return Err(PolarsError::Other("column".into())),
            }
            Ok(self)
        }
        pub fn lazy(self) -> Self { self }
        pub fn collect(self) -> PolarsResult<Self> { Ok(self) }
        pub fn sort<const N: usize>(self, by: [&str; N], _: SortMultipleOptions) -> Self {
            let keys: Vec<Column> = by.iter().map(|b| self.column(b).unwrap().clone()).collect();
            let mut ix: Vec<usize> = (0..self.height).collect();
            ix.sort_by_key(|i| keys.iter().map(|k| k.cell(*i)).collect::<Vec<_>>());
            let cols = self.cols.iter().map(|c| Column {
                name: c.name.clone(),
                cells: match &c.cells {
                    Cells::Str(v) => Cells::Str(ix.iter().map(|i| v[*i].clone()).collect()),
                    Cells::U64(v) => Cells::U64(ix.iter().map(|i| v[*i]).collect()),
                },
            }).collect();
            Self { height: self.height, cols }
        }
        fn write(&self, w: &mut dyn Write, sep: u8) -> std::io::Result<()> {
            let mut out = vec![];
            for (i, c) in self.cols.iter().enumerate() {
                if i > 0 { out.push(sep); }
                out.extend_from_slice(c.name.0.as_bytes());
            }
            out.push(b'\n');
            for r in 0..self.height {
                for (i, c) in self.cols.iter().enumerate() {
                    if i > 0 { out.push(sep); }
                    out.extend_from_slice(c.cell(r).as_bytes());
                }
                out.push(b'\n');
            }
            w.write_all(&out)
        }
    }
    impl std::fmt::Display for DataFrame {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            let mut v = vec![];
            let _ = self.write(&mut v, b' ');
            f.write_str(&String::from_utf8_lossy(&v))
        }
    }
    pub struct CsvWriter<W: Write>(W, u8);
    impl<W: Write> CsvWriter<W> {
        pub fn new(w: W) -> Self { Self(w, b',') }
        pub fn with_separator(mut self, s: u8) -> Self { self.1 = s; self }
        pub fn finish(&mut self, d: &mut DataFrame) -> PolarsResult<()> { Ok(d.write(&mut self.0, self.1)?) }
    }
    #[derive(Default)]
    pub struct ZstdLevel;
    pub enum IpcCompression { ZSTD(ZstdLevel) }
    pub struct IpcWriter<W: Write>(W);
    impl<W: Write> IpcWriter<W> {
        pub fn new(w: W) -> Self { Self(w) }
        pub fn with_compression(self, _: Option<IpcCompression>) -> Self { self }
        pub fn finish(&mut self, d: &mut DataFrame) -> PolarsResult<()> { Ok(d.write(&mut self.0, b',')?) }
    }
    pub struct IpcReader<R: Read>(R);
    impl<R: Read> IpcReader<R> {
        pub fn new(r: R) -> Self { Self(r) }
        pub fn finish(self) -> PolarsResult<DataFrame> { Err(PolarsError::Other("ipc".into())) }
    }
    pub struct CsvParseOptions(u8);
    impl Default for CsvParseOptions { fn default() -> Self { Self(b',') } }
    impl CsvParseOptions { pub fn with_separator(mut self, s: u8) -> Self { self.0 = s; self } }
    pub struct CsvReadOptions { header: bool, sep: u8 }
    impl Default for CsvReadOptions { fn default() -> Self { Self { header: true, sep: b',' } } }
    pub struct CsvReader(PathBuf, bool, u8);
    impl CsvReadOptions {
        pub fn with_has_header(mut self, b: bool) -> Self { self.header = b; self }
        pub fn with_infer_schema_length(self, _: Option<usize>) -> Self { self }
        pub fn with_parse_options(mut self, o: CsvParseOptions) -> Self { self.sep = o.0; self }
        pub fn try_into_reader_with_file_path(self, p: Option<PathBuf>) -> PolarsResult<CsvReader> {
            Ok(CsvReader(p.unwrap(), self.header, self.sep))
        }
    }
    impl CsvReader {
        pub fn finish(self) -> PolarsResult<DataFrame> {
            let text = std::fs::read_to_string(&self.0)?;
            if text.is_empty() { return Err(PolarsError::Other("empty csv".into())); }
            let mut rows: Vec<Vec<String>> = text
                .strip_suffix('\n').unwrap_or(&text)
                .split('\n')
                .map(|l| l.split(self.2 as char).map(String::from).collect())
                .collect();
            let head: Vec<String> = if self.1 { rows.remove(0) } else { (1..=rows[0].len()).map(|i| format!("column_{i}")).collect() };
            let cols = head.into_iter().enumerate().map(|(i, n)| Column {
                name: PlSmallStr(n),
                cells: Cells::Str(rows.iter().map(|r| r.get(i).filter(|s| !s.is_empty()).cloned()).collect()),
            }).collect();
            DataFrame::new(rows.len(), cols)
        }
    }
}
