From 9c557dfae9463a88c89c957f7182f18022e10607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 01/12] fix: read a YAML configuration file once per load

---
 src/configuration.rs | 38 ++++++++++++--------------------------
 src/file.rs          | 20 +++++++++++++++++---
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 4f1998c..ed840db 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -64,33 +64,19 @@ impl Configuration {
         ))
     }
 
-    fn load_items_to_character_converter(
-        &self,
-        path: &Path,
-        ext: &FileExtension,
-    ) -> Result<CharacterConverter, Error> {
-        let table = match ext {
-            FileExtension::Csv => table_from_csv_path(path)?,
-            FileExtension::Yaml => table_from_yaml_path(path)?,
-            //FileExtension::Json => from_json_path(path),
-        };
-        Ok(CharacterConverter::from_tables(vec![table]))
-    }
-
-    fn load_modifiers(&self, path: &Path, ext: &FileExtension) -> Result<Vec<ModifierKind>, Error> {
-        let modifier_kinds = match ext {
-            FileExtension::Yaml => modifiers_from_yaml_path(path)?,
-            //FileExtension::Json => modifiers_from_json_path(path)?,
-            _ => Vec::new(),
-        };
-        Ok(modifier_kinds)
-    }
-
     fn load_file_with_ext(&self, path: &Path) -> Result<Vec<ModifierKind>, Error> {
-        let ext = FileExtension::from_path(&path)?;
-        let character_converter = self.load_items_to_character_converter(path, &ext)?;
-        let mut modifiers = self.load_modifiers(path, &ext)?;
-        modifiers.push(character_converter.into());
+        let (table, mut modifiers) = match FileExtension::from_path(path)? {
+            FileExtension::Csv => (table_from_csv_path(path)?, Vec::new()),
+            // items と modifiers が別々の版の内容にならないように、ファイルは一度だけ読み込む
+            FileExtension::Yaml => {
+                let data = yaml_value_from_path(path)?;
+                (
+                    table_from_yaml_value(&data, path)?,
+                    modifiers_from_yaml_value(&data)?,
+                )
+            } //FileExtension::Json => from_json_path(path),
+        };
+        modifiers.push(CharacterConverter::from_tables(vec![table]).into());
         Ok(modifiers)
     }
 }
diff --git a/src/file.rs b/src/file.rs
index 85c3883..7419641 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -60,7 +60,16 @@ pub fn to_csv_writer<T: Corr, W: Write>(corr: &Correspondence<T>, writer: W) ->
 /// ```
 pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let path = path.as_ref();
-    let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
+    table_from_yaml_value(&yaml_value_from_path(path)?, path)
+}
+
+/// YAML ファイルを一度だけ読み込みます。
+pub(crate) fn yaml_value_from_path(path: &Path) -> Result<serde_yaml::Value, Error> {
+    Ok(serde_yaml::from_reader(File::open(path)?)?)
+}
+
+/// 読み込み済みの YAML から置換テーブルを生成します。
+pub(crate) fn table_from_yaml_value(data: &serde_yaml::Value, path: &Path) -> Result<Table, Error> {
     let mut items = Vec::new();
     if let Some(map) = data.get("items") {
         for (key, value) in map.as_mapping().unwrap().iter() {
@@ -87,8 +96,13 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
 /// let result = modifiers_from_yaml_path("/path/to/foo.yaml");
 /// ```
 pub fn modifiers_from_yaml_path(path: impl AsRef<Path>) -> Result<Vec<ModifierKind>, Error> {
-    let path = path.as_ref();
-    let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
+    modifiers_from_yaml_value(&yaml_value_from_path(path.as_ref())?)
+}
+
+/// 読み込み済みの YAML から Modifier を生成します。
+pub(crate) fn modifiers_from_yaml_value(
+    data: &serde_yaml::Value,
+) -> Result<Vec<ModifierKind>, Error> {
     let mut modifiers = Vec::new();
     if let Some(map) = data.get("modifiers") {
         for (key, value) in map.as_mapping().unwrap().iter() {
-- 
2.43.0


From 6a5687366cc6576c129745561d41db1d9d44e234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 02/12] fix: report malformed configuration as an error instead
 of panicking

---
 src/error.rs                                  |  2 +
 src/file.rs                                   | 26 ++++++++-----
 src/modifier.rs                               | 24 ++++++++++++
 src/modifier/character_converter.rs           | 22 ++++-------
 src/modifier/character_eliminator.rs          | 10 +++--
 src/modifier/consecutive_character_reducer.rs | 10 +++--
 src/modifier/ligature_translator.rs           | 14 +++----
 src/modifier_kind.rs                          | 39 +++++++------------
 8 files changed, 84 insertions(+), 63 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 08936ab..ea4b31c 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -15,6 +15,8 @@ pub enum Error {
     UnsupportedFileExtensionError(String),
     #[error("存在しない Modifier が指定されています: {0}")]
     ModifierKindParseError(String),
+    #[error("設定ファイルの形式が正しくありません: {0}")]
+    ConfigurationFormatError(String),
     #[error("指定したパスに拡張子が含まれていません: {0}")]
     FileExtensionNotFoundInPath(std::path::PathBuf),
     #[error("拡張子の文字列を str に変換できません: {0}")]
diff --git a/src/file.rs b/src/file.rs
index 7419641..4fb2a58 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -4,6 +4,7 @@ use super::corr::{Corr, Correspondence, Item, Synthesized};
 use super::modifier_kind::ModifierKind;
 use super::table::{Origin, Table};
 use crate::error::Error;
+use crate::modifier::{mapping_from_yaml_value, str_from_yaml_value};
 use serde::Serialize;
 use std::collections::BTreeMap;
 use std::fs::File;
@@ -68,17 +69,24 @@ pub(crate) fn yaml_value_from_path(path: &Path) -> Result<serde_yaml::Value, Err
     Ok(serde_yaml::from_reader(File::open(path)?)?)
 }
 
+/// ルートキーの内容を返します。中身のないルートキーは記述されていないものとして扱います。
+fn section<'a>(data: &'a serde_yaml::Value, key: &str) -> Option<&'a serde_yaml::Value> {
+    data.get(key).filter(|value| !value.is_null())
+}
+
 /// 読み込み済みの YAML から置換テーブルを生成します。
 pub(crate) fn table_from_yaml_value(data: &serde_yaml::Value, path: &Path) -> Result<Table, Error> {
     let mut items = Vec::new();
-    if let Some(map) = data.get("items") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
-            if value.is_sequence() {
-                for v in value.as_sequence().unwrap().iter() {
-                    items.push(Item::new(v.as_str().unwrap(), key.as_str().unwrap()));
+    if let Some(map) = section(data, "items") {
+        for (key, value) in mapping_from_yaml_value(map)?.iter() {
+            let to = str_from_yaml_value(key)?;
+            match value.as_sequence() {
+                Some(values) => {
+                    for v in values.iter() {
+                        items.push(Item::new(str_from_yaml_value(v)?, to));
+                    }
                 }
-            } else {
-                items.push(Item::new(value.as_str().unwrap(), key.as_str().unwrap()));
+                None => items.push(Item::new(str_from_yaml_value(value)?, to)),
             }
         }
     }
@@ -104,8 +112,8 @@ pub(crate) fn modifiers_from_yaml_value(
     data: &serde_yaml::Value,
 ) -> Result<Vec<ModifierKind>, Error> {
     let mut modifiers = Vec::new();
-    if let Some(map) = data.get("modifiers") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
+    if let Some(map) = section(data, "modifiers") {
+        for (key, value) in mapping_from_yaml_value(map)?.iter() {
             modifiers.push(ModifierKind::from_yaml_key_value(key, value)?);
         }
     }
diff --git a/src/modifier.rs b/src/modifier.rs
index 4ffb993..243cf87 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -45,6 +45,30 @@ pub trait ModifierFromYamlValue {
         Self: Sized;
 }
 
+/// 設定ファイルの値を文字列として取り出します。
+pub(crate) fn str_from_yaml_value(value: &serde_yaml::Value) -> Result<&str, Error> {
+    value.as_str().ok_or_else(|| {
+        Error::ConfigurationFormatError(format!("a string is required, not {:?}", value))
+    })
+}
+
+/// 設定ファイルの値の文字列の先頭の文字を取り出します。
+pub(crate) fn char_from_yaml_value(value: &serde_yaml::Value) -> Result<char, Error> {
+    str_from_yaml_value(value)?
+        .chars()
+        .next()
+        .ok_or_else(|| Error::ConfigurationFormatError("a character is required.".to_string()))
+}
+
+/// 設定ファイルの値をマッピングとして取り出します。
+pub(crate) fn mapping_from_yaml_value(
+    value: &serde_yaml::Value,
+) -> Result<&serde_yaml::Mapping, Error> {
+    value.as_mapping().ok_or_else(|| {
+        Error::ConfigurationFormatError(format!("a mapping is required, not {:?}", value))
+    })
+}
+
 /// 実行された正規化処理の途中経過を保存する構造体です。
 #[derive(Debug)]
 pub struct ModifiedRecords {
diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 5c2c687..4b3a61a 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{char_from_yaml_value, mapping_from_yaml_value, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -101,16 +101,10 @@ impl Modifier for CharacterConverter {
 
 impl ModifierFromYamlValue for CharacterConverter {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        let map = value
-            .as_mapping()
-            .unwrap()
+        let map = mapping_from_yaml_value(value)?
             .iter()
-            .map(|(key, value)| {
-                let k = key.as_str().unwrap().chars().next().unwrap();
-                let v = value.as_str().unwrap().chars().next().unwrap();
-                (k, v)
-            })
-            .collect::<HashMap<char, char>>();
+            .map(|(key, value)| Ok((char_from_yaml_value(key)?, char_from_yaml_value(value)?)))
+            .collect::<Result<HashMap<char, char>, Error>>()?;
         Ok(Self::from_map(map))
     }
 }
@@ -157,10 +151,10 @@ impl CharacterConverter {
         let mut items_map = HashMap::new();
         for table in tables.iter() {
             for item in table.items().iter() {
-                items_map.insert(
-                    item.from.chars().next().unwrap(),
-                    item.to.chars().next().unwrap(),
-                );
+                // 空文字列は一文字から一文字の置換にならないので無視する
+                if let (Some(from), Some(to)) = (item.from.chars().next(), item.to.chars().next()) {
+                    items_map.insert(from, to);
+                }
             }
         }
         Self { items_map }
diff --git a/src/modifier/character_eliminator.rs b/src/modifier/character_eliminator.rs
index 9307a40..8d83318 100644
--- a/src/modifier/character_eliminator.rs
+++ b/src/modifier/character_eliminator.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{char_from_yaml_value, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -39,10 +39,12 @@ impl ModifierFromYamlValue for CharacterEliminator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_sequence()
-            .unwrap()
+            .ok_or_else(|| {
+                Error::ConfigurationFormatError(format!("a sequence is required, not {:?}", value))
+            })?
             .iter()
-            .map(|v| v.as_str().unwrap().chars().next().unwrap())
-            .collect::<Vec<char>>();
+            .map(char_from_yaml_value)
+            .collect::<Result<Vec<char>, Error>>()?;
         Ok(Self::from_chars(map))
     }
 }
diff --git a/src/modifier/consecutive_character_reducer.rs b/src/modifier/consecutive_character_reducer.rs
index 0a07671..a363958 100644
--- a/src/modifier/consecutive_character_reducer.rs
+++ b/src/modifier/consecutive_character_reducer.rs
@@ -1,6 +1,6 @@
 //! 連続する同じ文字を一つにする Modifier のモジュールです。
 
-use super::{ModifiedRecord, Modifier};
+use super::{str_from_yaml_value, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -82,15 +82,17 @@ impl Modifier for ConsecutiveCharacterReducer {
 
 impl ModifierFromYamlValue for ConsecutiveCharacterReducer {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        Self::from_str(value.as_str().unwrap())
+        Self::from_str(str_from_yaml_value(value)?)
     }
 }
 
 impl FromStr for ConsecutiveCharacterReducer {
     type Err = Error;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let c = s.chars().next().unwrap();
-        Ok(Self::new(c))
+        match s.chars().next() {
+            Some(c) => Ok(Self::new(c)),
+            None => Err(Error::ModifierKindParseError("require value.".to_string())),
+        }
     }
 }
 
diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index 2b33831..14d5bf8 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{mapping_from_yaml_value, str_from_yaml_value, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -33,16 +33,14 @@ impl Modifier for LigatureTranslator {
 
 impl ModifierFromYamlValue for LigatureTranslator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        let map = value
-            .as_mapping()
-            .unwrap()
+        let map = mapping_from_yaml_value(value)?
             .iter()
             .map(|(key, value)| {
-                let k = key.as_str().unwrap().to_string();
-                let v = value.as_str().unwrap().to_string();
-                (k, v)
+                let k = str_from_yaml_value(key)?.to_string();
+                let v = str_from_yaml_value(value)?.to_string();
+                Ok((k, v))
             })
-            .collect::<HashMap<String, String>>();
+            .collect::<Result<HashMap<String, String>, Error>>()?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier_kind.rs b/src/modifier_kind.rs
index 234bb84..019788d 100644
--- a/src/modifier_kind.rs
+++ b/src/modifier_kind.rs
@@ -7,7 +7,7 @@ use crate::modifier::ligature_translator::LigatureTranslator;
 use crate::modifier::neologdn::Neologdn;
 use crate::modifier::trim::Trim;
 use crate::modifier::ModifierFromYamlValue;
-use crate::modifier::{ModifiedRecord, Modifier};
+use crate::modifier::{str_from_yaml_value, ModifiedRecord, Modifier};
 use std::str::FromStr;
 
 #[derive(Clone, Debug, PartialEq, Eq)]
@@ -41,40 +41,24 @@ impl FromStr for ModifierKind {
             _ => {
                 if s.starts_with("consecutive_character_reducer(") {
                     // ex. consecutive_character_reducer(ー)
-                    let s = s
-                        .strip_prefix("consecutive_character_reducer(")
-                        .unwrap()
-                        .strip_suffix(')')
-                        .unwrap();
+                    let s = arguments(s, "consecutive_character_reducer(")?;
                     let consecutive_character_reducer = ConsecutiveCharacterReducer::from_str(s)?;
                     Ok(Self::ConsecutiveCharacterReducer(
                         consecutive_character_reducer,
                     ))
                 } else if s.starts_with("ligature_translator(") {
                     // ligature_translator(ハ゜,パ)
-                    let s = s
-                        .strip_prefix("ligature_translator(")
-                        .unwrap()
-                        .strip_suffix(')')
-                        .unwrap();
+                    let s = arguments(s, "ligature_translator(")?;
                     let ligature_translator = LigatureTranslator::from_str(s)?;
                     Ok(Self::LigatureTranslator(ligature_translator))
                 } else if s.starts_with("character_eliminator(") {
                     // character_eliminator(~, ∼, ∾, 〜, 〰, ～)
-                    let s = s
-                        .strip_prefix("character_eliminator(")
-                        .unwrap()
-                        .strip_suffix(')')
-                        .unwrap();
+                    let s = arguments(s, "character_eliminator(")?;
                     let character_eliminator = CharacterEliminator::from_str(s)?;
                     Ok(Self::CharacterEliminator(character_eliminator))
                 } else if s.starts_with("character_converter(") {
                     // character_converter(Ａ: A, Ｂ: B, Ｃ: C, Ｄ: D, Ｅ: E)
-                    let s = s
-                        .strip_prefix("character_converter(")
-                        .unwrap()
-                        .strip_suffix(')')
-                        .unwrap();
+                    let s = arguments(s, "character_converter(")?;
                     let character_converter = CharacterConverter::from_str(s)?;
                     Ok(Self::CharacterConverter(character_converter))
                 } else {
@@ -85,6 +69,13 @@ impl FromStr for ModifierKind {
     }
 }
 
+/// `name(` と `)` に囲まれた引数の部分を取り出します。
+fn arguments<'a>(s: &'a str, prefix: &str) -> Result<&'a str, Error> {
+    s.strip_prefix(prefix)
+        .and_then(|s| s.strip_suffix(')'))
+        .ok_or_else(|| Error::ModifierKindParseError("parse error.".to_string()))
+}
+
 impl Modifier for ModifierKind {
     fn modify(&self, input: &str) -> String {
         match self {
@@ -116,7 +107,7 @@ impl ModifierKind {
         key: &serde_yaml::Value,
         value: &serde_yaml::Value,
     ) -> Result<Self, Error> {
-        match key.as_str().unwrap() {
+        match str_from_yaml_value(key)? {
             "character_converter" => Ok(Self::CharacterConverter(
                 CharacterConverter::from_yaml_value(value)?,
             )),
@@ -134,9 +125,9 @@ impl ModifierKind {
             )),
             "trim" => Ok(Self::Trim(Trim::from_yaml_value(value)?)),
             "neologdn" => Ok(Self::Neologdn(Neologdn::from_yaml_value(value)?)),
-            _ => Err(Error::ModifierKindParseError(format!(
+            key => Err(Error::ModifierKindParseError(format!(
                 "specified key {} does not exists.",
-                key.as_str().unwrap()
+                key
             ))),
         }
     }
-- 
2.43.0


From 9fa2face28cf882511d1eb82bccbde801fe5728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 03/12] fix: accept the documented list form of the YAML items
 section

---
 src/file.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 4fb2a58..9b7be24 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -74,19 +74,41 @@ fn section<'a>(data: &'a serde_yaml::Value, key: &str) -> Option<&'a serde_yaml:
     data.get(key).filter(|value| !value.is_null())
 }
 
+/// マッピングから文字列の値を取り出します。
+fn field<'a>(map: &'a serde_yaml::Mapping, key: &str) -> Result<&'a str, Error> {
+    match map.get(&key.into()) {
+        Some(value) => str_from_yaml_value(value),
+        None => Err(Error::ConfigurationFormatError(format!(
+            "{} is required.",
+            key
+        ))),
+    }
+}
+
 /// 読み込み済みの YAML から置換テーブルを生成します。
 pub(crate) fn table_from_yaml_value(data: &serde_yaml::Value, path: &Path) -> Result<Table, Error> {
     let mut items = Vec::new();
-    if let Some(map) = section(data, "items") {
-        for (key, value) in mapping_from_yaml_value(map)?.iter() {
-            let to = str_from_yaml_value(key)?;
-            match value.as_sequence() {
-                Some(values) => {
-                    for v in values.iter() {
-                        items.push(Item::new(str_from_yaml_value(v)?, to));
+    if let Some(value) = section(data, "items") {
+        match value.as_sequence() {
+            // 配列指定 ( from / to )
+            Some(values) => {
+                for value in values.iter() {
+                    let map = mapping_from_yaml_value(value)?;
+                    items.push(Item::new(field(map, "from")?, field(map, "to")?));
+                }
+            }
+            None => {
+                for (key, value) in mapping_from_yaml_value(value)?.iter() {
+                    let to = str_from_yaml_value(key)?;
+                    match value.as_sequence() {
+                        Some(values) => {
+                            for v in values.iter() {
+                                items.push(Item::new(str_from_yaml_value(v)?, to));
+                            }
+                        }
+                        None => items.push(Item::new(str_from_yaml_value(value)?, to)),
                     }
                 }
-                None => items.push(Item::new(str_from_yaml_value(value)?, to)),
             }
         }
     }
-- 
2.43.0


From 323c56b803d59169432adb6435f51b831569fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 04/12] fix: accept every supported extension in CHANOMARC and
 never ignore its value

---
 src/configuration.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index ed840db..7ccdb37 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -83,11 +83,8 @@ impl Configuration {
 
 /// 環境変数が指定されていたらパスを返す
 fn file_path_from_env(env_name: &str) -> Option<PathBuf> {
-    if let Ok(path) = env::var(env_name) {
-        // Configuration::ENV_NAME
-        return Some(PathBuf::from(path));
-    }
-    None
+    // Configuration::ENV_NAME
+    env::var_os(env_name).map(PathBuf::from)
 }
 
 /// 指定したファイルが設定ファイルとして使用可能であればパス情報を返す
@@ -95,8 +92,7 @@ fn valid_file_path(path: PathBuf) -> Result<Vec<PathBuf>, Error> {
     if !path.is_file() {
         return Err(crate::error::Error::RcFileLoadError(path));
     }
-    let extension = String::from(path.extension().unwrap().to_str().unwrap());
-    if FileExtension::iter().all(|ext| ext.to_string() != extension) {
+    if FileExtension::from_path(&path).is_err() {
         return Err(crate::error::Error::RcFileLoadError(path));
     }
     Ok(vec![path])
-- 
2.43.0


From c89a785c394521fba9a6e5691a655d4f7b0d1d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 05/12] fix: discover chanomarc files with the documented .yml
 extension

---
 src/configuration.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 7ccdb37..0e2a824 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -60,7 +60,7 @@ impl Configuration {
 
         Ok(exists_file_paths(
             auto_load_dirs(),
-            auto_load_paths_from_dir,
+            candidate_paths_from_dir,
         ))
     }
 
@@ -131,6 +131,21 @@ fn auto_load_paths_from_dir(dir: &PathBuf) -> Vec<PathBuf> {
         .collect()
 }
 
+/// [auto_load_paths_from_dir] のパスに、`.yaml` の別名の `.yml` のパスを加える
+#[allow(clippy::ptr_arg)]
+fn candidate_paths_from_dir(dir: &PathBuf) -> Vec<PathBuf> {
+    auto_load_paths_from_dir(dir)
+        .into_iter()
+        .flat_map(|path| match path.extension() {
+            Some(ext) if ext == "yaml" => {
+                let yml = path.with_extension("yml");
+                vec![path, yml]
+            }
+            _ => vec![path],
+        })
+        .collect()
+}
+
 /// 存在するパスに絞り込む
 fn exists_file_paths<F>(load_dirs: Vec<PathBuf>, expand: F) -> Vec<PathBuf>
 where
-- 
2.43.0


From 5954e0565bcf312f313e2c7739b6ed81020aa6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 06/12] fix: keep the final text of a pipeline without steps

---
 src/chanoma.rs  |  2 +-
 src/modifier.rs | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/chanoma.rs b/src/chanoma.rs
index e0d7ddb..207f351 100644
--- a/src/chanoma.rs
+++ b/src/chanoma.rs
@@ -149,7 +149,7 @@ impl Chanoma {
             v.push(result.clone());
             text = result.text;
         }
-        ModifiedRecords::new(v)
+        ModifiedRecords::with_text(v, text)
     }
 
     /// 一文字から一文字の置換テーブルを定義した [Table] 構造体を使用するように [Chanoma] 構造体を初期化します。
diff --git a/src/modifier.rs b/src/modifier.rs
index 243cf87..fa7d5a2 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -73,6 +73,7 @@ pub(crate) fn mapping_from_yaml_value(
 #[derive(Debug)]
 pub struct ModifiedRecords {
     records: Vec<ModifiedRecord>,
+    text: String,
 }
 
 impl ModifiedRecords {
@@ -84,7 +85,14 @@ impl ModifiedRecords {
     // let modified = ModifiedRecords::new(vec![]);
     // ```
     pub fn new(records: Vec<ModifiedRecord>) -> Self {
-        Self { records }
+        let text = records.last().map_or_else(String::new, |r| r.text.clone());
+        Self { records, text }
+    }
+
+    // 途中経過と最終結果の文字列から [ModifiedRecords] 構造体を初期化します。
+    // Modifier が一つもない場合の最終結果は入力の文字列そのものです。
+    pub(crate) fn with_text(records: Vec<ModifiedRecord>, text: String) -> Self {
+        Self { records, text }
     }
 
     // [ModifiedResult] 構造体から最終結果の文字列を取得します。
@@ -96,7 +104,7 @@ impl ModifiedRecords {
     // assert_eq!(modified.text(), "");
     // ```
     pub fn text(&self) -> &str {
-        &self.records.last().unwrap().text
+        &self.text
     }
 
     // [ModifiedRecords] 構造体からすべての途中経過を取得します。
-- 
2.43.0


From f1c76e885ecb99b4d094eb77355478c6914c2a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 07/12] fix: apply ligatures in a fixed order

---
 src/modifier/ligature_translator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index 14d5bf8..0a78515 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -15,7 +15,10 @@ pub struct LigatureTranslator {
 impl Modifier for LigatureTranslator {
     fn modify(&self, input: &str) -> String {
         let mut text = input.to_string();
-        for (from, to) in self.map.iter() {
+        // HashMap の順番は実行のたびに変わるので、長い合字から順番に置換する
+        let mut pairs = self.map.iter().collect::<Vec<(&String, &String)>>();
+        pairs.sort_by(|(a, _), (b, _)| b.len().cmp(&a.len()).then_with(|| a.cmp(b)));
+        for (from, to) in pairs {
             text = text.replace(from, to);
         }
         text
-- 
2.43.0


From 84699c88e034f7ae186eff496609bdb9ef641c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 08/12] fix: list the changes of a character converter in text
 order

---
 src/modifier/character_converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 4b3a61a..b706cd3 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -91,6 +91,9 @@ impl Modifier for CharacterConverter {
             }
         }
 
+        // HashMap の順番は実行のたびに変わるので、文字の順番に並べる
+        positions.sort_by_key(|position| position.index);
+
         ModifiedRecord::new(
             ModifierKind::CharacterConverter(self.clone()),
             refs.into_iter().collect::<String>(),
-- 
2.43.0


From d95521cea25b4e81a00972450c4f4490c7408f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 09/12] fix: report a failure to read standard input on stderr
 with a non-zero status

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 16027a3..7ed6fca 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -44,7 +44,10 @@ fn main() {
                     let result = chanoma.normalize(input.trim_end_matches('\n'));
                     println!("{}", result);
                 }
-                Err(error) => println!("error: {}", error),
+                Err(error) => {
+                    eprintln!("error: {}", error);
+                    std::process::exit(1);
+                }
             }
             //}
         }
-- 
2.43.0


From 5054f42ece31b21734e066948f906bbad4c3cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 10/12] fix: print the header line the CSV loader expects

---
 src/bin/output.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/output.rs b/src/bin/output.rs
index 4fa41ec..2221443 100644
--- a/src/bin/output.rs
+++ b/src/bin/output.rs
@@ -22,6 +22,8 @@ impl Format {
         match self {
             Self::Csv => {
                 let wtr = to_csv_writer(&table.corr(), vec![]);
+                // 読み込む際に先頭の行は見出しとして扱われる
+                println!("from,to");
                 println!("{}", String::from_utf8(wtr.into_inner()?)?);
             }
             Self::Yaml => {
-- 
2.43.0


From 53c3b2c3392ee88e83206e2d347be38a4af1dfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 11/12] fix: do not take a read that ends after the byte order
 mark for the end of a CSV file

---
 src/file.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file.rs b/src/file.rs
index 9b7be24..bdf6dfb 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -20,7 +20,11 @@ use std::path::Path;
 /// ```
 pub fn table_from_csv_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let path = path.as_ref();
-    let mut rdr = csv::ReaderBuilder::new().flexible(true).from_path(path)?;
+    // 読み込みが BOM の直後で途切れると csv::Reader はそこを終端とみなすため、すべて読み込んでから渡す
+    let data = std::fs::read(path).map_err(csv::Error::from)?;
+    let mut rdr = csv::ReaderBuilder::new()
+        .flexible(true)
+        .from_reader(data.as_slice());
     let mut items = Vec::new();
     for result in rdr.records() {
         let record = result?;
-- 
2.43.0


From 4c41d46a2433db137963385d4bc8341ebfdaf0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 12/12] fix: keep the exit status when the error message cannot
 be printed

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 7ed6fca..b2e0165 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use chanoma::Chanoma;
 use clap::Parser;
-use std::io;
+use std::io::{self, Write};
 
 #[derive(Parser)]
 #[clap(version = "0.1.1", author = "booink <booink.work@gmail.com>")]
@@ -45,7 +45,7 @@ fn main() {
                     println!("{}", result);
                 }
                 Err(error) => {
-                    eprintln!("error: {}", error);
+                    let _ = writeln!(io::stderr(), "error: {}", error);
                     std::process::exit(1);
                 }
             }
-- 
2.43.0

